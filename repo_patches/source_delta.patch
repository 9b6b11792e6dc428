From e28937522b9549648e8207e63b86d36fab9a4da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 01/72] fix: flat matrix element of two- and three-body phase
 space is 1 for arrays too

---
 hazma/phase_space/_three_body.py | 4 ++--
 hazma/phase_space/_two_body.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..c02ecef 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -35,9 +35,9 @@ def _msqrd_flat(s, t):
         return 1.0
 
     if scalar_s:
-        return np.zeros_like(t)
+        return np.ones_like(t)
 
-    return np.zeros_like(s)
+    return np.ones_like(s)
 
 
 def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
diff --git a/hazma/phase_space/_two_body.py b/hazma/phase_space/_two_body.py
index 4cbe51c..d3eafa6 100644
--- a/hazma/phase_space/_two_body.py
+++ b/hazma/phase_space/_two_body.py
@@ -16,7 +16,7 @@ def _msqrd_flat(z):
     if np.isscalar(z):
         return 1.0
 
-    return np.zeros_like(z)
+    return np.ones_like(z)
 
 
 class TwoBody(AbstractPhaseSpaceIntegrator):
-- 
2.43.0


From 84079e28884bab0864d77bd0f3f35cf722af7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 02/72] fix: refresh the RAMBO rescaling start value when
 energy or masses are reassigned

---
 hazma/phase_space/_rambo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..3ecb721 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,12 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_initial_scale(self) -> float:
+        """
+        Compute the starting value of the momentum rescaling parameter.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From 3d5d404167508cedc2e4d77e125d670c2f250bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 03/72] fix: reassigning the matrix element of a
 momenta-signature three-body integrator takes effect

---
 hazma/phase_space/_three_body.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index c02ecef..f1880ce 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,8 +176,11 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
-        self.__msqrd = fn
-        self.__update_msqrd()
+        if self.__original_msqrd is not None:
+            self.__original_msqrd = fn
+            self.__update_msqrd()
+        else:
+            self.__msqrd = fn
 
     def __trapz(self, fn, a: float, b: float, npts: int):
         xs = np.linspace(a, b, npts)
-- 
2.43.0


From a831f8e7f8273a4bda13e3d7f2fe7076cd1dbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 04/72] fix: three-body quadrature distributions have the
 requested number of bins

---
 hazma/phase_space/_three_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index f1880ce..6485aa8 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -564,7 +564,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
 
         dists = []
         for i, (emin, emax) in enumerate(elims):
-            ebins = np.linspace(emin, emax, nbins)
+            ebins = np.linspace(emin, emax, nbins + 1)
             es = 0.5 * (ebins[1:] + ebins[:-1])
 
             dwde = integral(es, i)
@@ -648,7 +648,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
             i = tuple({0, 1, 2}.symmetric_difference({j, k}))[0]
             m1 = masses[i]
 
-            mbins = np.linspace(mmin, mmax, nbins)
+            mbins = np.linspace(mmin, mmax, nbins + 1)
             ms = 0.5 * (mbins[1:] + mbins[:-1])
             es = (q**2 - ms**2 + m1**2) / (2 * q)
 
-- 
2.43.0


From 0184687b7ce04811356e06cca0dcb2d947daf124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 05/72] fix: normalise the double boost of a massive delta
 function to one particle

---
 hazma/spectra/boost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..86daa0f 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -174,7 +174,7 @@ def double_boost_delta_function(
         pre = 1.0
 
     dnde[mask] = pre * np.log(num / den)
-    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * e0
+    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * np.sqrt(e0**2 - m**2)
 
     if scalar:
         return dnde[0]
-- 
2.43.0


From f0e96c52289fe9eb7c2ef44cbfc64e57a5fb7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 06/72] fix: unphysical boosts give zero and a vanishing boost
 forwards the spectrum's arguments

---
 hazma/spectra/boost.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index 86daa0f..6c3be98 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -206,12 +206,12 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    if beta < 0 or beta >= 1.0:
+        return np.zeros_like(energies)
+
     if beta < np.finfo(float).eps:
         return dnde
 
-    if beta < 0 or beta > 1.0:
-        return np.zeros_like(energies)
-
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
     boosted = np.zeros_like(energies)
@@ -277,19 +277,19 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
         #   1. beta ~ 0: In rest frame => no boost
-        #   2. beta > 1 or beta < 0: Unphysical.
+        #   2. beta >= 1 or beta < 0: Unphysical.
 
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
-
-        if beta < 0.0 or beta > 1.0:
+        if beta < 0.0 or beta >= 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
             return np.zeros_like(energies)
 
+        if beta < np.finfo(energies.dtype).eps:
+            return fn(energies, *args)
+
         return None
 
     def bounds_and_mask(energies: RealArray, gamma: float, beta: float):
@@ -350,7 +350,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
-- 
2.43.0


From 4223788c51267f652d50684d2de60f2a488993dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 07/72] fix: batched RAMBO distributions accumulate weights in
 floating point

---
 hazma/phase_space/_rambo.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 3ecb721..6c9c62a 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -589,9 +589,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         ebounds = energy_limits(self.cme, self.masses)  # type: ignore
         bins = [np.linspace(emin, emax, nbins + 1) for emin, emax in ebounds]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
@@ -658,9 +656,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         bins = [make_bins(pair) for pair in pairs]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
-- 
2.43.0


From 98174c6bcd51ebc916ab016a259775b3a80eec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 08/72] fix: fixed-grid boosts accept energies that are all
 below the product mass

---
 hazma/spectra/boost.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index 6c3be98..a8e3861 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -82,6 +82,8 @@ def _make_integrator(method, vectorized: bool, **kwargs):
         integrator_ = integrate.trapezoid if is_trapz else integrate.simpson
 
         def fixed(f, a, b):
+            if len(a) == 0:
+                return np.zeros_like(a)
             es = np.array([np.linspace(a_, b_, npts) for a_, b_ in zip(a, b)])
             ff = f if vectorized else np.vectorize(f)
             integrands = np.array([ff(e) for e in es])
-- 
2.43.0


From 733b0ad8400669bc03de7ec9d293f1dd75762e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 09/72] fix: tabulated positron and neutrino spectra at rest
 vanish outside the table instead of extrapolating

---
 hazma/spectra/_neutrino/_utils.py | 4 ++--
 hazma/spectra/_positron/_utils.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7a7e705..46dbd9e 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -38,7 +38,7 @@ def _dnde_neutrino_point(
         return 0.0
 
     if parent_energy - parent_mass < eps:
-        return interp(neutrino_energy) * neutrino_energy  # type: ignore
+        return interp(neutrino_energy, ext="zeros") * neutrino_energy  # type: ignore
 
     gamma = parent_energy / parent_mass
     beta = np.sqrt(1.0 - gamma**-2)
@@ -65,7 +65,7 @@ def _dnde_neutrino(
 
     eps = np.finfo(neutrino_energy.dtype).eps
     if parent_energy - parent_mass < eps:
-        return interp(neutrino_energy) * neutrino_energy  # type: ignore
+        return interp(neutrino_energy, ext="zeros") * neutrino_energy  # type: ignore
 
     return np.array(
         [
diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index a80dfb1..9d8c7af 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -40,7 +40,9 @@ def _dnde_positron_point(
         return 0.0
 
     if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
+        return interp(positron_energy, ext="zeros") * np.sqrt(
+            np.maximum(positron_energy**2 - me**2, 0.0)
+        )
 
     gamma = parent_energy / parent_mass
     beta = np.sqrt(1.0 - gamma**-2)
@@ -65,7 +67,9 @@ def _dnde_positron_array(
         return np.zeros_like(positron_energy)
 
     if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
+        return interp(positron_energy, ext="zeros") * np.sqrt(
+            np.maximum(positron_energy**2 - me**2, 0.0)
+        )
 
     return np.array(
         [
-- 
2.43.0


From ed822800884e1d17c8a890a1f353d5dbcc6fecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 10/72] fix: the neutral rho neutrino tables hold the two-pion
 decay and the charged rho tables the pi pi0 decay

---
 .../_neutrino/data/charged_rho_neutrino_e.csv | 1002 ++++++++---------
 .../data/charged_rho_neutrino_mu.csv          |  992 ++++++++--------
 .../_neutrino/data/neutral_rho_neutrino_e.csv | 1002 ++++++++---------
 .../data/neutral_rho_neutrino_mu.csv          |  992 ++++++++--------
 4 files changed, 1994 insertions(+), 1994 deletions(-)

diff --git a/hazma/spectra/_neutrino/data/charged_rho_neutrino_e.csv b/hazma/spectra/_neutrino/data/charged_rho_neutrino_e.csv
index 72db01f..90dfc3b 100644
--- a/hazma/spectra/_neutrino/data/charged_rho_neutrino_e.csv
+++ b/hazma/spectra/_neutrino/data/charged_rho_neutrino_e.csv
@@ -1,501 +1,501 @@
-# energy,pi_pi
-5.109989461000004e-01,1.181264458469876e-04
-5.177997474297205e-01,1.212297810215171e-04
-5.246910595111344e-01,1.244137674114578e-04
-5.316740869370211e-01,1.276804648173626e-04
-5.387500503318877e-01,1.310319841358334e-04
-5.459201865653328e-01,1.344704885629099e-04
-5.531857489682500e-01,1.379981948229960e-04
-5.605480075519090e-01,1.416173744237396e-04
-5.680082492299514e-01,1.453303549372776e-04
-5.755677780433416e-01,1.491395213082597e-04
-5.832279153883121e-01,1.530473171890617e-04
-5.909900002473413e-01,1.570562463026004e-04
-5.988553894232063e-01,1.611688738331587e-04
-6.068254577761502e-01,1.653878278456245e-04
-6.149015984642063e-01,1.697158007335526e-04
-6.230852231867199e-01,1.741555506964416e-04
-6.313777624311118e-01,1.787099032466279e-04
-6.397806657229257e-01,1.833817527461826e-04
-6.482954018792038e-01,1.881740639741977e-04
-6.569234592652334e-01,1.930898737248378e-04
-6.656663460547122e-01,1.981322924365288e-04
-6.745255904933746e-01,2.033045058526444e-04
-6.835027411661272e-01,2.086097767140419e-04
-6.925993672677400e-01,2.140514464837905e-04
-7.018170588771390e-01,2.196329371044210e-04
-7.111574272353504e-01,2.253577527880149e-04
-7.206221050271436e-01,2.312294818394364e-04
-7.302127466664224e-01,2.372517985129954e-04
-7.399310285854144e-01,2.434284649028131e-04
-7.497786495277088e-01,2.497633328671452e-04
-7.597573308451960e-01,2.562603459868954e-04
-7.698688167989565e-01,2.629235415585345e-04
-7.801148748641560e-01,2.697570526216127e-04
-7.904972960389978e-01,2.767651100210353e-04
-8.010178951577874e-01,2.839520445042377e-04
-8.116785112081629e-01,2.913222888533739e-04
-8.224810076525477e-01,2.988803800525982e-04
-8.334272727538817e-01,3.066309614904892e-04
-8.445192199056873e-01,3.145787851976307e-04
-8.557587879665278e-01,3.227287141193239e-04
-8.671479415989179e-01,3.310857244233727e-04
-8.786886716127443e-01,3.396549078428298e-04
-8.903829953132563e-01,3.484414740535599e-04
-9.022329568536888e-01,3.574507530864195e-04
-9.142406275925772e-01,3.666881977737999e-04
-9.264081064558289e-01,3.761593862302364e-04
-9.387375203036126e-01,3.858700243667170e-04
-9.512310243021307e-01,3.958259484382696e-04
-9.638908023003399e-01,4.060331276243414e-04
-9.767190672116851e-01,4.164976666414113e-04
-9.897180614009142e-01,4.272258083872077e-04
-1.002890057076040e+00,4.382239366158245e-04
-1.016237356685521e+00,4.494985786429460e-04
-1.029762293320725e+00,4.610564080803068e-04
-1.043467231123748e+00,4.729042475984178e-04
-1.057354565700671e+00,4.850490717164997e-04
-1.071426724540301e+00,4.974980096184501e-04
-1.085686167438497e+00,5.102583479935820e-04
-1.100135386928138e+00,5.233375339007344e-04
-1.114776908714817e+00,5.367431776542591e-04
-1.129613292118326e+00,5.504830557302403e-04
-1.144647130520029e+00,5.645651136911829e-04
-1.159881051816175e+00,5.789974691272640e-04
-1.175317718877255e+00,5.937884146120854e-04
-1.190959830013468e+00,6.089464206707148e-04
-1.206810119446381e+00,6.244801387576438e-04
-1.222871357786870e+00,6.403984042421007e-04
-1.239146352519414e+00,6.567102393979961e-04
-1.255637948492848e+00,6.734248563955681e-04
-1.272349028417632e+00,6.905516602916045e-04
-1.289282513369746e+00,7.081002520148979e-04
-1.306441363301295e+00,7.260804313433818e-04
-1.323828577557901e+00,7.445021998691363e-04
-1.341447195402987e+00,7.633757639472339e-04
-1.359300296549032e+00,7.827115376241163e-04
-1.377391001695908e+00,8.025201455409310e-04
-1.395722473076369e+00,8.228124258069696e-04
-1.414297915008808e+00,8.435994328380474e-04
-1.433120574457365e+00,8.648924401543522e-04
-1.452193741599497e+00,8.867029431319620e-04
-1.471520750401093e+00,9.090426617018755e-04
-1.491104979199248e+00,9.319235429900519e-04
-1.510949851292792e+00,9.553577638915543e-04
-1.531058835540680e+00,9.793577335715205e-04
-1.551435446968342e+00,1.003936095885226e-03
-1.572083247382108e+00,1.029105731709105e-03
-1.593005845991801e+00,1.054879761174116e-03
-1.614206900041632e+00,1.081271545792343e-03
-1.635690115449474e+00,1.108294690467245e-03
-1.657459247454654e+00,1.135963045377415e-03
-1.679518101274365e+00,1.164290707723170e-03
-1.701870532768813e+00,1.193292023324691e-03
-1.724520449115217e+00,1.222981588059857e-03
-1.747471809490776e+00,1.253374249129226e-03
-1.770728625764733e+00,1.284485106135020e-03
-1.794294963199639e+00,1.316329511960198e-03
-1.818174941161962e+00,1.348923073433021e-03
-1.842372733842141e+00,1.382281651761728e-03
-1.866892570984235e+00,1.416421362723127e-03
-1.891738738625272e+00,1.451358576588108e-03
-1.916915579844447e+00,1.487109917766143e-03
-1.942427495522285e+00,1.523692264149988e-03
-1.968278945109908e+00,1.561122746140789e-03
-1.994474447408545e+00,1.599418745332816e-03
-2.021018581359408e+00,1.638597892835985e-03
-2.047915986844093e+00,1.678678067213241e-03
-2.075171365495615e+00,1.719677392008713e-03
-2.102789481520257e+00,1.761614232841351e-03
-2.130775162530341e+00,1.804507194037514e-03
-2.159133300388095e+00,1.848375114774632e-03
-2.187868852060737e+00,1.893237064706732e-03
-2.216986840486952e+00,1.939112339041142e-03
-2.246492355454893e+00,1.986020453034223e-03
-2.276390554491870e+00,2.033981135872375e-03
-2.306686663765882e+00,2.083014323902950e-03
-2.337385978999140e+00,2.133140153177994e-03
-2.368493866393755e+00,2.184378951271913e-03
-2.400015763569748e+00,2.236751228332343e-03
-2.431957180515527e+00,2.290277667321509e-03
-2.464323700551041e+00,2.344979113403337e-03
-2.497120981303727e+00,2.400876562429432e-03
-2.530354755697458e+00,2.457991148474848e-03
-2.564030832954658e+00,2.516344130372207e-03
-2.598155099611733e+00,2.575956877190308e-03
-2.632733520548046e+00,2.636850852600861e-03
-2.667772140028560e+00,2.699047598074289e-03
-2.703277082760371e+00,2.762568714842803e-03
-2.739254554963299e+00,2.827435844566053e-03
-2.775710845454729e+00,2.893670648631671e-03
-2.812652326748886e+00,2.961294786019825e-03
-2.850085456170743e+00,3.030329889657684e-03
-2.888016776984756e+00,3.100797541186202e-03
-2.926452919538616e+00,3.172719244058074e-03
-2.965400602422225e+00,3.246116394882025e-03
-3.004866633642099e+00,3.321010252924592e-03
-3.044857911811400e+00,3.397421907676604e-03
-3.085381427355800e+00,3.475372244387208e-03
-3.126444263735405e+00,3.554881907463998e-03
-3.168053598682930e+00,3.635971261632973e-03
-3.210216705458361e+00,3.718660350747466e-03
-3.252940954120311e+00,3.802968854129938e-03
-3.296233812814295e+00,3.888916040325425e-03
-3.340102849078156e+00,3.976520718139868e-03
-3.384555731164858e+00,4.065801184830826e-03
-3.429600229382890e+00,4.156775171312219e-03
-3.475244217454503e+00,4.249459784228351e-03
-3.521495673892030e+00,4.343871444746125e-03
-3.568362683392519e+00,4.440025823907529e-03
-3.615853438250924e+00,4.537937774377341e-03
-3.663976239792119e+00,4.637621258413816e-03
-3.712739499821943e+00,4.739089271882207e-03
-3.762151742097590e+00,4.842353764123170e-03
-3.812221603817538e+00,4.947425553479558e-03
-3.862957837131326e+00,5.054314238276569e-03
-3.914369310669422e+00,5.163028103040979e-03
-3.966465011093442e+00,5.273574019735806e-03
-4.019254044667013e+00,5.385957343776822e-03
-4.072745638847532e+00,5.500181804587050e-03
-4.126949143899116e+00,5.616249390434624e-03
-4.181874034527019e+00,5.734160227288187e-03
-4.237529911533794e+00,5.853912451412353e-03
-4.293926503497504e+00,5.975502075413494e-03
-4.351073668472265e+00,6.098922847433554e-03
-4.408981395711423e+00,6.224166103176254e-03
-4.467659807413660e+00,6.351220610436218e-03
-4.527119160492345e+00,6.480072405787345e-03
-4.587369848368424e+00,6.610704623071543e-03
-4.648422402787189e+00,6.743097313313473e-03
-4.710287495659198e+00,6.877227255670539e-03
-4.772975940925726e+00,7.013067759010528e-03
-4.836498696449016e+00,7.150588453691381e-03
-4.900866865927711e+00,7.289755073099386e-03
-4.966091700837762e+00,7.430529224482669e-03
-5.032184602399166e+00,7.572868148596831e-03
-5.099157123568898e+00,7.716724467658885e-03
-5.167020971060342e+00,7.862045921083529e-03
-5.235788007389615e+00,8.008775088453511e-03
-5.305470252949116e+00,8.156849099151896e-03
-5.376079888108687e+00,8.306199328059519e-03
-5.447629255344713e+00,8.456751076695251e-03
-5.520130861397575e+00,8.608423239149966e-03
-5.593597379457817e+00,8.761127952137134e-03
-5.668041651381405e+00,8.914770228454032e-03
-5.743476689934459e+00,9.069247573117178e-03
-5.819915681067875e+00,9.224449581404158e-03
-5.897371986222209e+00,9.380257518001141e-03
-5.975859144663244e+00,9.536543876421059e-03
-6.055390875848640e+00,9.693171917821854e-03
-6.135981081826065e+00,9.849995188316961e-03
-6.217643849663268e+00,1.000685701383155e-02
-6.300393453910474e+00,1.016358997151762e-02
-6.384244359095568e+00,1.032001533669912e-02
-6.469211222252461e+00,1.047594250427429e-02
-6.555308895483131e+00,1.063116838345720e-02
-6.642552428553752e+00,1.078547676469243e-02
-6.730957071525366e+00,1.093863765752786e-02
-6.820538277419596e+00,1.109040659817877e-02
-6.911311704919786e+00,1.124052392546278e-02
-7.003293221108139e+00,1.138871402372979e-02
-7.096498904239253e+00,1.153468453135324e-02
-7.190945046550597e+00,1.167812551329067e-02
-7.286648157110350e+00,1.181870859616667e-02
-7.383624964703179e+00,1.195608606432007e-02
-7.481892420754412e+00,1.208989214533845e-02
-7.581467702293113e+00,1.221987437315447e-02
-7.682368214954630e+00,1.234598314235864e-02
-7.784611596023049e+00,1.246818823731979e-02
-7.888215717514186e+00,1.258646155494242e-02
-7.993198689299590e+00,1.270077762418763e-02
-8.099578862272134e+00,1.281111347034301e-02
-8.207374831553709e+00,1.291744877040946e-02
-8.316605439745645e+00,1.301976605000589e-02
-8.427289780222369e+00,1.311805155747486e-02
-8.539447200468897e+00,1.321229410731410e-02
-8.653097305462770e+00,1.330248651657512e-02
-8.768259961100952e+00,1.338877627221862e-02
-8.884955297672384e+00,1.347071307940414e-02
-9.003203713376728e+00,1.354875345161996e-02
-9.123025877889937e+00,1.362275728518535e-02
-9.244442735977316e+00,1.369273974076965e-02
-9.367475511154611e+00,1.375872148674721e-02
-9.492145709397864e+00,1.382072871743708e-02
-9.618475122902632e+00,1.387879461995198e-02
-9.746485833893246e+00,1.393295742519752e-02
-9.876200218482735e+00,1.398326336505978e-02
-1.000764095058416e+01,1.402976581410787e-02
-1.014083100587397e+01,1.407252543114274e-02
-1.027579366580813e+01,1.411161237684012e-02
-1.041255252169172e+01,1.414710230710463e-02
-1.055113147880261e+01,1.417908452956122e-02
-1.069155476057010e+01,1.420765530116255e-02
-1.083384691280916e+01,1.423292174934514e-02
-1.097803280801099e+01,1.425500206771268e-02
-1.112413764969068e+01,1.427402594694228e-02
-1.127218697679282e+01,1.429013513320124e-02
-1.142220666815559e+01,1.430348436705798e-02
-1.157422294703442e+01,1.431424186244151e-02
-1.172826238568576e+01,1.432259036982741e-02
-1.188435191001184e+01,1.432872713674737e-02
-1.204251880426734e+01,1.433286613866444e-02
-1.220279071582860e+01,1.433523739438577e-02
-1.236519566002640e+01,1.433608898221297e-02
-1.252976202504293e+01,1.433568732558654e-02
-1.269651857687408e+01,1.433431923159059e-02
-1.286549446435766e+01,1.433229026137266e-02
-1.303671922426858e+01,1.433128969138468e-02
-1.321022278648188e+01,1.432883800270988e-02
-1.338603547920439e+01,1.432632259215708e-02
-1.356418803427607e+01,1.432374134174794e-02
-1.374471159254193e+01,1.432109293077851e-02
-1.392763770929538e+01,1.431837557047887e-02
-1.411299835979406e+01,1.431558754819737e-02
-1.430082594484909e+01,1.431272634226641e-02
-1.449115329648866e+01,1.430979151240920e-02
-1.468401368369706e+01,1.430677970766201e-02
-1.487944081823007e+01,1.430368978307250e-02
-1.507746886050769e+01,1.430051958765431e-02
-1.527813242558536e+01,1.429731164867435e-02
-1.548146658920460e+01,1.429393001167990e-02
-1.568750689392428e+01,1.429050629248012e-02
-1.589628935533334e+01,1.428699377423827e-02
-1.610785046834630e+01,1.428339020728684e-02
-1.632222721358253e+01,1.427969582690291e-02
-1.653945706383039e+01,1.427590037295504e-02
-1.675957799059750e+01,1.427200944665401e-02
-1.698262847074799e+01,1.426801765777273e-02
-1.720864749322833e+01,1.426392251611902e-02
-1.743767456588247e+01,1.425972178370625e-02
-1.766974972235779e+01,1.425541234624152e-02
-1.790491352910293e+01,1.425099145797193e-02
-1.814320709245877e+01,1.424645666574778e-02
-1.838467206584373e+01,1.424180473790834e-02
-1.862935065703476e+01,1.423703243702345e-02
-1.887728563554524e+01,1.423213798172923e-02
-1.912852034010097e+01,1.422711705875923e-02
-1.938309868621575e+01,1.422196680019983e-02
-1.964106517386779e+01,1.421668394932242e-02
-1.990246489527821e+01,1.421126548112475e-02
-2.016734354279313e+01,1.420570756253912e-02
-2.043574741687061e+01,1.420000707312078e-02
-2.070772343417394e+01,1.419416007178751e-02
-2.098331913577260e+01,1.418816323326672e-02
-2.126258269545236e+01,1.418201257595891e-02
-2.154556292813609e+01,1.417570386920710e-02
-2.183230929841639e+01,1.416923475288529e-02
-2.212287192920208e+01,1.416259949867446e-02
-2.241730161047954e+01,1.415579468467993e-02
-2.271564980819080e+01,1.414881613347245e-02
-2.301796867322965e+01,1.414165915509712e-02
-2.332431105055760e+01,1.413432022015295e-02
-2.363473048844113e+01,1.412679382632614e-02
-2.394928124781178e+01,1.411907491376923e-02
-2.426801831175101e+01,1.411116011758082e-02
-2.459099739510108e+01,1.410304408794114e-02
-2.491827495420394e+01,1.409472174625701e-02
-2.524990819676981e+01,1.408618785423868e-02
-2.558595509187690e+01,1.407743776730741e-02
-2.592647438010444e+01,1.406846582563034e-02
-2.627152558380039e+01,1.405926647424530e-02
-2.662116901748591e+01,1.404983393000843e-02
-2.697546579839821e+01,1.404016361058039e-02
-2.733447785717389e+01,1.403025005115607e-02
-2.769826794867418e+01,1.402008356781493e-02
-2.806689966295452e+01,1.400966158051240e-02
-2.844043743637996e+01,1.399897683470562e-02
-2.881894656288861e+01,1.398802388753139e-02
-2.920249320540491e+01,1.397679517321946e-02
-2.959114440740484e+01,1.396528429717060e-02
-2.998496810463500e+01,1.395348455314827e-02
-3.038403313698771e+01,1.394138885464250e-02
-3.078840926053425e+01,1.392899013448645e-02
-3.119816715971793e+01,1.391628131224608e-02
-3.161337845970976e+01,1.390325475941981e-02
-3.203411573892846e+01,1.388990299710256e-02
-3.246045254172703e+01,1.387621814315164e-02
-3.289246339124822e+01,1.386219232882028e-02
-3.333022380245109e+01,1.384781764639365e-02
-3.377381029531094e+01,1.383308559818034e-02
-3.422330040819485e+01,1.381798779402582e-02
-3.467877271141543e+01,1.380251572257137e-02
-3.514030682096466e+01,1.378666145519552e-02
-3.560798341243070e+01,1.377041323388369e-02
-3.608188423509995e+01,1.375376404284747e-02
-3.656209212624666e+01,1.373670439190749e-02
-3.704869102561282e+01,1.371922462771368e-02
-3.754176599008069e+01,1.370131476185050e-02
-3.804140320854066e+01,1.368296470900411e-02
-3.854769001695692e+01,1.366416442687188e-02
-3.906071491363382e+01,1.364490330086628e-02
-3.958056757468505e+01,1.362517157200555e-02
-4.010733886970904e+01,1.360495746145585e-02
-4.064112087767285e+01,1.358425042552940e-02
-4.118200690300744e+01,1.356303890444208e-02
-4.173009149191716e+01,1.354131170229844e-02
-4.228547044890630e+01,1.351905698495361e-02
-4.284824085352565e+01,1.349626299519949e-02
-4.341850107734180e+01,1.347291748688168e-02
-4.399635080113253e+01,1.344900790271821e-02
-4.458189103231066e+01,1.342452192187383e-02
-4.517522412258016e+01,1.339944644568100e-02
-4.577645378582711e+01,1.337376875478058e-02
-4.638568511624867e+01,1.334747463511721e-02
-4.700302460672353e+01,1.332055130910076e-02
-4.762858016742661e+01,1.329298576824564e-02
-4.826246114469173e+01,1.326476235524923e-02
-4.890477834012515e+01,1.323586729683838e-02
-4.955564402997351e+01,1.320628603033668e-02
-5.021517198474982e+01,1.317600371437759e-02
-5.088347748912003e+01,1.314500540193402e-02
-5.156067736205493e+01,1.311327545727937e-02
-5.224688997724986e+01,1.308079879943422e-02
-5.294223528381627e+01,1.304755945250003e-02
-5.364683482724874e+01,1.301354116647917e-02
-5.436081177067085e+01,1.297872753817703e-02
-5.508429091636422e+01,1.294310184183339e-02
-5.581739872758344e+01,1.290664755208934e-02
-5.656026335066189e+01,1.286934639707098e-02
-5.731301463741156e+01,1.283118413437571e-02
-5.807578416782092e+01,1.279214000503437e-02
-5.884870527305498e+01,1.275219719845519e-02
-5.963191305876141e+01,1.271133759813703e-02
-6.042554442868680e+01,1.266954272986460e-02
-6.122973810860727e+01,1.262679425754098e-02
-6.204463467057775e+01,1.258307312601171e-02
-6.287037655750346e+01,1.253836038255053e-02
-6.370710810803898e+01,1.249263667120999e-02
-6.455497558181844e+01,1.244588218002856e-02
-6.541412718502147e+01,1.239807806543435e-02
-6.628471309627953e+01,1.234920444758180e-02
-6.716688549292685e+01,1.229923864426947e-02
-6.806079857760092e+01,1.224816325614282e-02
-6.896660860519684e+01,1.219595672417571e-02
-6.988447391018070e+01,1.214259814434892e-02
-7.081455493426590e+01,1.208806688726954e-02
-7.175701425445840e+01,1.203234206371897e-02
-7.271201661147492e+01,1.197540210952659e-02
-7.367972893853944e+01,1.191722596915754e-02
-7.466032039056286e+01,1.185779222197261e-02
-7.565396237371111e+01,1.179707933078918e-02
-7.666082857536672e+01,1.173506569019790e-02
-7.768109499448909e+01,1.167172909491571e-02
-7.871493997237923e+01,1.160704950721215e-02
-7.976254422385303e+01,1.154100349190296e-02
-8.082409086883041e+01,1.147356985389817e-02
-8.189976546434434e+01,1.140472696491437e-02
-8.298975603697592e+01,1.133445308809102e-02
-8.409425311572129e+01,1.126272639311070e-02
-8.521344976529578e+01,1.118952613956686e-02
-8.634754161988141e+01,1.111482994737027e-02
-8.749672691732347e+01,1.103861727991955e-02
-8.866120653378248e+01,1.096086678968651e-02
-8.984118401884668e+01,1.088155780918490e-02
-9.103686563111253e+01,1.080066974804204e-02
-9.224846037423841e+01,1.071818239789682e-02
-9.347618003347813e+01,1.063407600220136e-02
-9.472023921270083e+01,1.054833105623284e-02
-9.598085537190339e+01,1.046092837605423e-02
-9.725824886522220e+01,1.037184959698180e-02
-9.855264297945068e+01,1.028107670788497e-02
-9.986426397306994e+01,1.018859233500220e-02
-1.011933411157979e+02,1.009437975598713e-02
-1.025401067286656e+02,9.998423127597406e-03
-1.039047962246269e+02,9.900707082315590e-03
-1.052876481497079e+02,9.801217272963920e-03
-1.066889042247047e+02,9.699940752160447e-03
-1.081088093874363e+02,9.596864916353118e-03
-1.095476118355584e+02,9.491978527352462e-03
-1.110055630699492e+02,9.385271958957924e-03
-1.124829179386708e+02,9.276735577645844e-03
-1.139799346815163e+02,9.166362900174892e-03
-1.154968749751500e+02,9.054148044114087e-03
-1.170340039788482e+02,8.940086141359490e-03
-1.185915903808484e+02,8.824175993160387e-03
-1.201699064453161e+02,8.706414209878456e-03
-1.217692280599359e+02,8.586804601026603e-03
-1.233898347841363e+02,8.465349599480729e-03
-1.250320098979566e+02,8.342054833657174e-03
-1.266960404515641e+02,8.216928200735498e-03
-1.283822173154292e+02,8.089980171627695e-03
-1.300908352311701e+02,7.961223862957705e-03
-1.318221928630729e+02,7.830675428129043e-03
-1.335765928502979e+02,7.698353698964359e-03
-1.353543418597802e+02,7.564281109052782e-03
-1.371557506398351e+02,7.428483219892212e-03
-1.389811340744765e+02,7.290989641117172e-03
-1.408308112384579e+02,7.151833275543167e-03
-1.427051054530463e+02,7.011051258938143e-03
-1.446043443425390e+02,6.868685555224609e-03
-1.465288598915311e+02,6.724781843468577e-03
-1.484789885029464e+02,6.579390901359478e-03
-1.504550710568402e+02,6.432569720996846e-03
-1.524574529699846e+02,6.284380159509502e-03
-1.544864842562470e+02,6.134885191920850e-03
-1.565425195877721e+02,5.984162222059844e-03
-1.586259183569780e+02,5.832289256822552e-03
-1.607370447393776e+02,5.679352264751457e-03
-1.628762677572367e+02,5.525444372138642e-03
-1.650439613440772e+02,5.370666154498966e-03
-1.672405044100416e+02,5.215125931584811e-03
-1.694662809081252e+02,5.058939242146092e-03
-1.717216799012910e+02,4.902234030839087e-03
-1.740070956304771e+02,4.745141824049818e-03
-1.763229275835099e+02,4.587807850616364e-03
-1.786695805649339e+02,4.430385666073435e-03
-1.810474647667706e+02,4.273040185101465e-03
-1.834569958402209e+02,4.115947167855355e-03
-1.858985949683187e+02,3.959294138356037e-03
-1.883726889395541e+02,3.803281039688240e-03
-1.908797102224754e+02,3.648120805170091e-03
-1.934200970412841e+02,3.494039737005098e-03
-1.959942934524359e+02,3.341278785031210e-03
-1.986027494222610e+02,3.190093721638454e-03
-2.012459209056179e+02,3.040756302197415e-03
-2.039242699255936e+02,2.893554363299213e-03
-2.066382646542653e+02,2.748793690365929e-03
-2.093883794945350e+02,2.606797780494440e-03
-2.121750951630555e+02,2.467910151251692e-03
-2.149988987742591e+02,2.332493033748634e-03
-2.178602839255040e+02,2.200847509450595e-03
-2.207597507833550e+02,2.073047094103762e-03
-2.236978061710120e+02,1.949121949517555e-03
-2.266749636569015e+02,1.829099398794153e-03
-2.296917436444483e+02,1.713005487197330e-03
-2.327486734630417e+02,1.600862989184936e-03
-2.358462874602108e+02,1.492692229530092e-03
-2.389851270950289e+02,1.388510526585262e-03
-2.421657410327593e+02,1.288332128102923e-03
-2.453886852407615e+02,1.192167822457998e-03
-2.486545230856737e+02,1.100025004918536e-03
-2.519638254318884e+02,1.011906900702233e-03
-2.553171707413388e+02,9.278128011232559e-04
-2.587151451746132e+02,8.477375384803530e-04
-2.621583426934157e+02,7.716711709479857e-04
-2.656473651643890e+02,6.995989676525353e-04
-2.691828224643207e+02,6.315005119835991e-04
-2.727653325867484e+02,5.673499133572478e-04
-2.763955217499849e+02,5.071151700196451e-04
-2.800740245065799e+02,4.507578784281356e-04
-2.838014838542390e+02,3.982327132180564e-04
-2.875785513482192e+02,3.494872126526183e-04
-2.914058872152196e+02,3.044613016009293e-04
-2.952841604687882e+02,2.630864713740617e-04
-2.992140490262656e+02,2.252858262096745e-04
-3.031962398272825e+02,1.909732485142740e-04
-3.072314289538370e+02,1.600530094228023e-04
-3.113203217519684e+02,1.324189268587170e-04
-3.154636329550513e+02,1.079546764581358e-04
-3.196620868087295e+02,8.653161502629233e-05
-3.239164171975137e+02,6.800961504389668e-05
-3.282273677730632e+02,5.223564763695335e-05
-3.325956920841755e+02,3.904330542461222e-05
-3.370221537085065e+02,2.825199637185373e-05
-3.415075263860411e+02,1.966609530886594e-05
-3.460525941543435e+02,1.307439019313955e-05
-3.506581514856054e+02,8.248896044200081e-06
-3.553250034255188e+02,1.360520326514524e-06
-3.600539657339972e+02,1.360520326514524e-06
-3.648458650277690e+02,1.360520326514524e-06
-3.697015389248697e+02,1.360520326514524e-06
-3.746218361910555e+02,1.360520326514524e-06
+# energy,pi_pi0
+5.109989461000004e-01,5.906322292349380e-05
+5.177997474297205e-01,6.061489051075854e-05
+5.246910595111344e-01,6.220688370572892e-05
+5.316740869370211e-01,6.384023240868129e-05
+5.387500503318877e-01,6.551599206791672e-05
+5.459201865653328e-01,6.723524428145496e-05
+5.531857489682500e-01,6.899909741149800e-05
+5.605480075519090e-01,7.080868721186978e-05
+5.680082492299514e-01,7.266517746863882e-05
+5.755677780433416e-01,7.456976065412984e-05
+5.832279153883121e-01,7.652365859453083e-05
+5.909900002473413e-01,7.852812315130022e-05
+5.988553894232063e-01,8.058443691657933e-05
+6.068254577761502e-01,8.269391392281226e-05
+6.149015984642063e-01,8.485790036677631e-05
+6.230852231867199e-01,8.707777534822081e-05
+6.313777624311118e-01,8.935495162331395e-05
+6.397806657229257e-01,9.169087637309132e-05
+6.482954018792038e-01,9.408703198709885e-05
+6.569234592652334e-01,9.654493686241890e-05
+6.656663460547122e-01,9.906614621826441e-05
+6.745255904933746e-01,1.016522529263222e-04
+6.835027411661272e-01,1.043048883570210e-04
+6.925993672677400e-01,1.070257232418953e-04
+7.018170588771390e-01,1.098164685522105e-04
+7.111574272353504e-01,1.126788763940074e-04
+7.206221050271436e-01,1.156147409197182e-04
+7.302127466664224e-01,1.186258992564977e-04
+7.399310285854144e-01,1.217142324514066e-04
+7.497786495277088e-01,1.248816664335726e-04
+7.597573308451960e-01,1.281301729934477e-04
+7.698688167989565e-01,1.314617707792672e-04
+7.801148748641560e-01,1.348785263108063e-04
+7.904972960389978e-01,1.383825550105177e-04
+8.010178951577874e-01,1.419760222521188e-04
+8.116785112081629e-01,1.456611444266870e-04
+8.224810076525477e-01,1.494401900262991e-04
+8.334272727538817e-01,1.533154807452446e-04
+8.445192199056873e-01,1.572893925988154e-04
+8.557587879665278e-01,1.613643570596620e-04
+8.671479415989179e-01,1.655428622116864e-04
+8.786886716127443e-01,1.698274539214149e-04
+8.903829953132563e-01,1.742207370267799e-04
+9.022329568536888e-01,1.787253765432097e-04
+9.142406275925772e-01,1.833440988868999e-04
+9.264081064558289e-01,1.880796931151182e-04
+9.387375203036126e-01,1.929350121833585e-04
+9.512310243021307e-01,1.979129742191348e-04
+9.638908023003399e-01,2.030165638121707e-04
+9.767190672116851e-01,2.082488333207056e-04
+9.897180614009142e-01,2.136129041936039e-04
+1.002890057076040e+00,2.191119683079123e-04
+1.016237356685521e+00,2.247492893214730e-04
+1.029762293320725e+00,2.305282040401534e-04
+1.043467231123748e+00,2.364521237992089e-04
+1.057354565700671e+00,2.425245358582498e-04
+1.071426724540301e+00,2.487490048092251e-04
+1.085686167438497e+00,2.551291739967910e-04
+1.100135386928138e+00,2.616687669503672e-04
+1.114776908714817e+00,2.683715888271296e-04
+1.129613292118326e+00,2.752415278651202e-04
+1.144647130520029e+00,2.822825568455915e-04
+1.159881051816175e+00,2.894987345636320e-04
+1.175317718877255e+00,2.968942073060427e-04
+1.190959830013468e+00,3.044732103353574e-04
+1.206810119446381e+00,3.122400693788219e-04
+1.222871357786870e+00,3.201992021210503e-04
+1.239146352519414e+00,3.283551196989981e-04
+1.255637948492848e+00,3.367124281977841e-04
+1.272349028417632e+00,3.452758301458022e-04
+1.289282513369746e+00,3.540501260074490e-04
+1.306441363301295e+00,3.630402156716909e-04
+1.323828577557901e+00,3.722510999345681e-04
+1.341447195402987e+00,3.816878819736169e-04
+1.359300296549032e+00,3.913557688120581e-04
+1.377391001695908e+00,4.012600727704655e-04
+1.395722473076369e+00,4.114062129034848e-04
+1.414297915008808e+00,4.217997164190237e-04
+1.433120574457365e+00,4.324462200771761e-04
+1.452193741599497e+00,4.433514715659810e-04
+1.471520750401093e+00,4.545213308509377e-04
+1.491104979199248e+00,4.659617714950259e-04
+1.510949851292792e+00,4.776788819457771e-04
+1.531058835540680e+00,4.896788667857603e-04
+1.551435446968342e+00,5.019680479426128e-04
+1.572083247382108e+00,5.145528658545525e-04
+1.593005845991801e+00,5.274398805870579e-04
+1.614206900041632e+00,5.406357728961715e-04
+1.635690115449474e+00,5.541473452336225e-04
+1.657459247454654e+00,5.679815226887074e-04
+1.679518101274365e+00,5.821453538615848e-04
+1.701870532768813e+00,5.966460116623457e-04
+1.724520449115217e+00,6.114907940299286e-04
+1.747471809490776e+00,6.266871245646128e-04
+1.770728625764733e+00,6.422425530675100e-04
+1.794294963199639e+00,6.581647559800988e-04
+1.818174941161962e+00,6.744615367165107e-04
+1.842372733842141e+00,6.911408258808639e-04
+1.866892570984235e+00,7.082106813615635e-04
+1.891738738625272e+00,7.256792882940539e-04
+1.916915579844447e+00,7.435549588830713e-04
+1.942427495522285e+00,7.618461320749942e-04
+1.968278945109908e+00,7.805613730703947e-04
+1.994474447408545e+00,7.997093726664082e-04
+2.021018581359408e+00,8.192989464179925e-04
+2.047915986844093e+00,8.393390336066205e-04
+2.075171365495615e+00,8.598386960043564e-04
+2.102789481520257e+00,8.808071164206756e-04
+2.130775162530341e+00,9.022535970187571e-04
+2.159133300388095e+00,9.241875573873158e-04
+2.187868852060737e+00,9.466185323533661e-04
+2.216986840486952e+00,9.695561695205710e-04
+2.246492355454893e+00,9.930102265171116e-04
+2.276390554491870e+00,1.016990567936188e-03
+2.306686663765882e+00,1.041507161951475e-03
+2.337385978999140e+00,1.066570076588997e-03
+2.368493866393755e+00,1.092189475635957e-03
+2.400015763569748e+00,1.118375614166171e-03
+2.431957180515527e+00,1.145138833660754e-03
+2.464323700551041e+00,1.172489556701668e-03
+2.497120981303727e+00,1.200438281214716e-03
+2.530354755697458e+00,1.228995574237424e-03
+2.564030832954658e+00,1.258172065186103e-03
+2.598155099611733e+00,1.287978438595154e-03
+2.632733520548046e+00,1.318425426300430e-03
+2.667772140028560e+00,1.349523799037145e-03
+2.703277082760371e+00,1.381284357421402e-03
+2.739254554963299e+00,1.413717922283026e-03
+2.775710845454729e+00,1.446835324315836e-03
+2.812652326748886e+00,1.480647393009912e-03
+2.850085456170743e+00,1.515164944828842e-03
+2.888016776984756e+00,1.550398770593101e-03
+2.926452919538616e+00,1.586359622029037e-03
+2.965400602422225e+00,1.623058197441012e-03
+3.004866633642099e+00,1.660505126462296e-03
+3.044857911811400e+00,1.698710953838302e-03
+3.085381427355800e+00,1.737686122193604e-03
+3.126444263735405e+00,1.777440953731999e-03
+3.168053598682930e+00,1.817985630816487e-03
+3.210216705458361e+00,1.859330175373733e-03
+3.252940954120311e+00,1.901484427064969e-03
+3.296233812814295e+00,1.944458020162713e-03
+3.340102849078156e+00,1.988260359069934e-03
+3.384555731164858e+00,2.032900592415413e-03
+3.429600229382890e+00,2.078387585656110e-03
+3.475244217454503e+00,2.124729892114176e-03
+3.521495673892030e+00,2.171935722373063e-03
+3.568362683392519e+00,2.220012911953765e-03
+3.615853438250924e+00,2.268968887188671e-03
+3.663976239792119e+00,2.318810629206908e-03
+3.712739499821943e+00,2.369544635941104e-03
+3.762151742097590e+00,2.421176882061585e-03
+3.812221603817538e+00,2.473712776739779e-03
+3.862957837131326e+00,2.527157119138285e-03
+3.914369310669422e+00,2.581514051520489e-03
+3.966465011093442e+00,2.636787009867903e-03
+4.019254044667013e+00,2.692978671888411e-03
+4.072745638847532e+00,2.750090902293525e-03
+4.126949143899116e+00,2.808124695217312e-03
+4.181874034527019e+00,2.867080113644093e-03
+4.237529911533794e+00,2.926956225706176e-03
+4.293926503497504e+00,2.987751037706747e-03
+4.351073668472265e+00,3.049461423716777e-03
+4.408981395711423e+00,3.112083051588127e-03
+4.467659807413660e+00,3.175610305218109e-03
+4.527119160492345e+00,3.240036202893673e-03
+4.587369848368424e+00,3.305352311535771e-03
+4.648422402787189e+00,3.371548656656737e-03
+4.710287495659198e+00,3.438613627835270e-03
+4.772975940925726e+00,3.506533879505264e-03
+4.836498696449016e+00,3.575294226845690e-03
+4.900866865927711e+00,3.644877536549693e-03
+4.966091700837762e+00,3.715264612241334e-03
+5.032184602399166e+00,3.786434074298415e-03
+5.099157123568898e+00,3.858362233829443e-03
+5.167020971060342e+00,3.931022960541764e-03
+5.235788007389615e+00,4.004387544226756e-03
+5.305470252949116e+00,4.078424549575948e-03
+5.376079888108687e+00,4.153099664029760e-03
+5.447629255344713e+00,4.228375538347626e-03
+5.520130861397575e+00,4.304211619574983e-03
+5.593597379457817e+00,4.380563976068567e-03
+5.668041651381405e+00,4.457385114227016e-03
+5.743476689934459e+00,4.534623786558589e-03
+5.819915681067875e+00,4.612224790702079e-03
+5.897371986222209e+00,4.690128759000571e-03
+5.975859144663244e+00,4.768271938210529e-03
+6.055390875848640e+00,4.846585958910927e-03
+6.135981081826065e+00,4.924997594158481e-03
+6.217643849663268e+00,5.003428506915775e-03
+6.300393453910474e+00,5.081794985758809e-03
+6.384244359095568e+00,5.160007668349559e-03
+6.469211222252461e+00,5.237971252137145e-03
+6.555308895483131e+00,5.315584191728601e-03
+6.642552428553752e+00,5.392738382346213e-03
+6.730957071525366e+00,5.469318828763929e-03
+6.820538277419596e+00,5.545203299089385e-03
+6.911311704919786e+00,5.620261962731388e-03
+7.003293221108139e+00,5.694357011864895e-03
+7.096498904239253e+00,5.767342265676620e-03
+7.190945046550597e+00,5.839062756645334e-03
+7.286648157110350e+00,5.909354298083334e-03
+7.383624964703179e+00,5.978043032160034e-03
+7.481892420754412e+00,6.044946072669226e-03
+7.581467702293113e+00,6.109937186577233e-03
+7.682368214954630e+00,6.172991571179321e-03
+7.784611596023049e+00,6.234094118659897e-03
+7.888215717514186e+00,6.293230777471208e-03
+7.993198689299590e+00,6.350388812093814e-03
+8.099578862272134e+00,6.405556735171507e-03
+8.207374831553709e+00,6.458724385204730e-03
+8.316605439745645e+00,6.509883025002946e-03
+8.427289780222369e+00,6.559025778737430e-03
+8.539447200468897e+00,6.606147053657050e-03
+8.653097305462770e+00,6.651243258287559e-03
+8.768259961100952e+00,6.694388136109309e-03
+8.884955297672384e+00,6.735356539702071e-03
+9.003203713376728e+00,6.774376725809979e-03
+9.123025877889937e+00,6.811378642592674e-03
+9.244442735977316e+00,6.846369870384825e-03
+9.367475511154611e+00,6.879360743373603e-03
+9.492145709397864e+00,6.910364358718541e-03
+9.618475122902632e+00,6.939397309975990e-03
+9.746485833893246e+00,6.966478712598761e-03
+9.876200218482735e+00,6.991631682529890e-03
+1.000764095058416e+01,7.014882907053935e-03
+1.014083100587397e+01,7.036262715571368e-03
+1.027579366580813e+01,7.055806188420059e-03
+1.041255252169172e+01,7.073551153552313e-03
+1.055113147880261e+01,7.089542264780609e-03
+1.069155476057010e+01,7.103827650581275e-03
+1.083384691280916e+01,7.116460874672569e-03
+1.097803280801099e+01,7.127501033856338e-03
+1.112413764969068e+01,7.137012973471139e-03
+1.127218697679282e+01,7.145067566600620e-03
+1.142220666815559e+01,7.151742183528991e-03
+1.157422294703442e+01,7.157120931220757e-03
+1.172826238568576e+01,7.161295184913703e-03
+1.188435191001184e+01,7.164363568373683e-03
+1.204251880426734e+01,7.166433069332219e-03
+1.220279071582860e+01,7.167618697192886e-03
+1.236519566002640e+01,7.168044491106485e-03
+1.252976202504293e+01,7.167843662793271e-03
+1.269651857687408e+01,7.167159615795296e-03
+1.286549446435766e+01,7.166145130686329e-03
+1.303671922426858e+01,7.165644845692340e-03
+1.321022278648188e+01,7.164419001354939e-03
+1.338603547920439e+01,7.163161296078539e-03
+1.356418803427607e+01,7.161870670873968e-03
+1.374471159254193e+01,7.160546465389256e-03
+1.392763770929538e+01,7.159187785239433e-03
+1.411299835979406e+01,7.157793774098683e-03
+1.430082594484909e+01,7.156363171133204e-03
+1.449115329648866e+01,7.154895756204600e-03
+1.468401368369706e+01,7.153389853831005e-03
+1.487944081823007e+01,7.151844891536252e-03
+1.507746886050769e+01,7.150259793827155e-03
+1.527813242558536e+01,7.148655824337173e-03
+1.548146658920460e+01,7.146965005839952e-03
+1.568750689392428e+01,7.145253146240060e-03
+1.589628935533334e+01,7.143496887119133e-03
+1.610785046834630e+01,7.141695103643420e-03
+1.632222721358253e+01,7.139847913451454e-03
+1.653945706383039e+01,7.137950186477522e-03
+1.675957799059750e+01,7.136004723327005e-03
+1.698262847074799e+01,7.134008828886364e-03
+1.720864749322833e+01,7.131961258059509e-03
+1.743767456588247e+01,7.129860891853123e-03
+1.766974972235779e+01,7.127706173120760e-03
+1.790491352910293e+01,7.125495728985964e-03
+1.814320709245877e+01,7.123228332873888e-03
+1.838467206584373e+01,7.120902368954169e-03
+1.862935065703476e+01,7.118516218511725e-03
+1.887728563554524e+01,7.116068990864615e-03
+1.912852034010097e+01,7.113558529379613e-03
+1.938309868621575e+01,7.110983400099916e-03
+1.964106517386779e+01,7.108341974661209e-03
+1.990246489527821e+01,7.105632740562373e-03
+2.016734354279313e+01,7.102853781269561e-03
+2.043574741687061e+01,7.100003536560391e-03
+2.070772343417394e+01,7.097080035893754e-03
+2.098331913577260e+01,7.094081616633358e-03
+2.126258269545236e+01,7.091006287979457e-03
+2.154556292813609e+01,7.087851934603549e-03
+2.183230929841639e+01,7.084617376442646e-03
+2.212287192920208e+01,7.081299749337228e-03
+2.241730161047954e+01,7.077897342339966e-03
+2.271564980819080e+01,7.074408066736223e-03
+2.301796867322965e+01,7.070829577548561e-03
+2.332431105055760e+01,7.067160110076475e-03
+2.363473048844113e+01,7.063396913163072e-03
+2.394928124781178e+01,7.059537456884615e-03
+2.426801831175101e+01,7.055580058790412e-03
+2.459099739510108e+01,7.051522043970570e-03
+2.491827495420394e+01,7.047360873128503e-03
+2.524990819676981e+01,7.043093927119342e-03
+2.558595509187690e+01,7.038718883653703e-03
+2.592647438010444e+01,7.034232912815170e-03
+2.627152558380039e+01,7.029633237122648e-03
+2.662116901748591e+01,7.024916965004217e-03
+2.697546579839821e+01,7.020081805290196e-03
+2.733447785717389e+01,7.015125025578037e-03
+2.769826794867418e+01,7.010041783907467e-03
+2.806689966295452e+01,7.004830790256199e-03
+2.844043743637996e+01,6.999488417352812e-03
+2.881894656288861e+01,6.994011943765693e-03
+2.920249320540491e+01,6.988397586609730e-03
+2.959114440740484e+01,6.982642148585298e-03
+2.998496810463500e+01,6.976742276574136e-03
+3.038403313698771e+01,6.970694427321249e-03
+3.078840926053425e+01,6.964495067243225e-03
+3.119816715971793e+01,6.958140656123041e-03
+3.161337845970976e+01,6.951627379709904e-03
+3.203411573892846e+01,6.944951498551281e-03
+3.246045254172703e+01,6.938109071575818e-03
+3.289246339124822e+01,6.931096164410141e-03
+3.333022380245109e+01,6.923908823196823e-03
+3.377381029531094e+01,6.916542799090169e-03
+3.422330040819485e+01,6.908993897012912e-03
+3.467877271141543e+01,6.901257861285683e-03
+3.514030682096466e+01,6.893330727597762e-03
+3.560798341243070e+01,6.885206616941843e-03
+3.608188423509995e+01,6.876882021423735e-03
+3.656209212624666e+01,6.868352195953747e-03
+3.704869102561282e+01,6.859612313856838e-03
+3.754176599008069e+01,6.850657380925251e-03
+3.804140320854066e+01,6.841482354502056e-03
+3.854769001695692e+01,6.832082213435938e-03
+3.906071491363382e+01,6.822451650433139e-03
+3.958056757468505e+01,6.812585786002777e-03
+4.010733886970904e+01,6.802478730727923e-03
+4.064112087767285e+01,6.792125212764700e-03
+4.118200690300744e+01,6.781519452221042e-03
+4.173009149191716e+01,6.770655851149222e-03
+4.228547044890630e+01,6.759528492476807e-03
+4.284824085352565e+01,6.748131497599747e-03
+4.341850107734180e+01,6.736458743440838e-03
+4.399635080113253e+01,6.724503951359103e-03
+4.458189103231066e+01,6.712260960936917e-03
+4.517522412258016e+01,6.699723222840498e-03
+4.577645378582711e+01,6.686884377390290e-03
+4.638568511624867e+01,6.673737317558604e-03
+4.700302460672353e+01,6.660275654550378e-03
+4.762858016742661e+01,6.646492884122820e-03
+4.826246114469173e+01,6.632381177624613e-03
+4.890477834012515e+01,6.617933648419191e-03
+4.955564402997351e+01,6.603143015168338e-03
+5.021517198474982e+01,6.588001857188793e-03
+5.088347748912003e+01,6.572502700967009e-03
+5.156067736205493e+01,6.556637728639684e-03
+5.224688997724986e+01,6.540399399717109e-03
+5.294223528381627e+01,6.523779726250013e-03
+5.364683482724874e+01,6.506770583239587e-03
+5.436081177067085e+01,6.489363769088516e-03
+5.508429091636422e+01,6.471550920916694e-03
+5.581739872758344e+01,6.453323776044672e-03
+5.656026335066189e+01,6.434673198535489e-03
+5.731301463741156e+01,6.415592067187853e-03
+5.807578416782092e+01,6.396070002517185e-03
+5.884870527305498e+01,6.376098599227593e-03
+5.963191305876141e+01,6.355668799068514e-03
+6.042554442868680e+01,6.334771364932302e-03
+6.122973810860727e+01,6.313397128770488e-03
+6.204463467057775e+01,6.291536563005857e-03
+6.287037655750346e+01,6.269180191275266e-03
+6.370710810803898e+01,6.246318335604994e-03
+6.455497558181844e+01,6.222941090014278e-03
+6.541412718502147e+01,6.199039032717173e-03
+6.628471309627953e+01,6.174602223790899e-03
+6.716688549292685e+01,6.149619322134735e-03
+6.806079857760092e+01,6.124081628071409e-03
+6.896660860519684e+01,6.097978362087857e-03
+6.988447391018070e+01,6.071299072174460e-03
+7.081455493426590e+01,6.044033443634769e-03
+7.175701425445840e+01,6.016171031859487e-03
+7.271201661147492e+01,5.987701054763297e-03
+7.367972893853944e+01,5.958612984578770e-03
+7.466032039056286e+01,5.928896110986307e-03
+7.565396237371111e+01,5.898539665394590e-03
+7.666082857536672e+01,5.867532845098952e-03
+7.768109499448909e+01,5.835864547457856e-03
+7.871493997237923e+01,5.803524753606076e-03
+7.976254422385303e+01,5.770501745951478e-03
+8.082409086883041e+01,5.736784926949084e-03
+8.189976546434434e+01,5.702363482457185e-03
+8.298975603697592e+01,5.667226544045511e-03
+8.409425311572129e+01,5.631363196555352e-03
+8.521344976529578e+01,5.594763069783428e-03
+8.634754161988141e+01,5.557414973685133e-03
+8.749672691732347e+01,5.519308639959775e-03
+8.866120653378248e+01,5.480433394843254e-03
+8.984118401884668e+01,5.440778904592452e-03
+9.103686563111253e+01,5.400334874021018e-03
+9.224846037423841e+01,5.359091198948412e-03
+9.347618003347813e+01,5.317038001100681e-03
+9.472023921270083e+01,5.274165528116419e-03
+9.598085537190339e+01,5.230464188027114e-03
+9.725824886522220e+01,5.185924798490898e-03
+9.855264297945068e+01,5.140538353942484e-03
+9.986426397306994e+01,5.094296167501099e-03
+1.011933411157979e+02,5.047189877993566e-03
+1.025401067286656e+02,4.999211563798703e-03
+1.039047962246269e+02,4.950353541157795e-03
+1.052876481497079e+02,4.900608636481960e-03
+1.066889042247047e+02,4.849970376080224e-03
+1.081088093874363e+02,4.798432458176559e-03
+1.095476118355584e+02,4.745989263676231e-03
+1.110055630699492e+02,4.692635979478962e-03
+1.124829179386708e+02,4.638367788822922e-03
+1.139799346815163e+02,4.583181450087446e-03
+1.154968749751500e+02,4.527074022057044e-03
+1.170340039788482e+02,4.470043070679745e-03
+1.185915903808484e+02,4.412087996580194e-03
+1.201699064453161e+02,4.353207104939228e-03
+1.217692280599359e+02,4.293402300513302e-03
+1.233898347841363e+02,4.232674799740365e-03
+1.250320098979566e+02,4.171027416828587e-03
+1.266960404515641e+02,4.108464100367749e-03
+1.283822173154292e+02,4.044990085813847e-03
+1.300908352311701e+02,3.980611931478853e-03
+1.318221928630729e+02,3.915337714064522e-03
+1.335765928502979e+02,3.849176849482180e-03
+1.353543418597802e+02,3.782140554526391e-03
+1.371557506398351e+02,3.714241609946106e-03
+1.389811340744765e+02,3.645494820558586e-03
+1.408308112384579e+02,3.575916637771584e-03
+1.427051054530463e+02,3.505525629469072e-03
+1.446043443425390e+02,3.434342777612304e-03
+1.465288598915311e+02,3.362390921734289e-03
+1.484789885029464e+02,3.289695450679739e-03
+1.504550710568402e+02,3.216284860498423e-03
+1.524574529699846e+02,3.142190079754751e-03
+1.544864842562470e+02,3.067442595960425e-03
+1.565425195877721e+02,2.992081111029922e-03
+1.586259183569780e+02,2.916144628411276e-03
+1.607370447393776e+02,2.839676132375729e-03
+1.628762677572367e+02,2.762722186069321e-03
+1.650439613440772e+02,2.685333077249483e-03
+1.672405044100416e+02,2.607562965792406e-03
+1.694662809081252e+02,2.529469621073046e-03
+1.717216799012910e+02,2.451117015419544e-03
+1.740070956304771e+02,2.372570912024909e-03
+1.763229275835099e+02,2.293903925308182e-03
+1.786695805649339e+02,2.215192833036718e-03
+1.810474647667706e+02,2.136520092550733e-03
+1.834569958402209e+02,2.057973583927677e-03
+1.858985949683187e+02,1.979647069178019e-03
+1.883726889395541e+02,1.901640519844120e-03
+1.908797102224754e+02,1.824060402585045e-03
+1.934200970412841e+02,1.747019868502549e-03
+1.959942934524359e+02,1.670639392515605e-03
+1.986027494222610e+02,1.595046860819227e-03
+2.012459209056179e+02,1.520378151098708e-03
+2.039242699255936e+02,1.446777181649606e-03
+2.066382646542653e+02,1.374396845182964e-03
+2.093883794945350e+02,1.303398890247220e-03
+2.121750951630555e+02,1.233955075625846e-03
+2.149988987742591e+02,1.166246516874317e-03
+2.178602839255040e+02,1.100423754725297e-03
+2.207597507833550e+02,1.036523547051881e-03
+2.236978061710120e+02,9.745609747587776e-04
+2.266749636569015e+02,9.145496993970766e-04
+2.296917436444483e+02,8.565027435986652e-04
+2.327486734630417e+02,8.004314945924681e-04
+2.358462874602108e+02,7.463461147650462e-04
+2.389851270950289e+02,6.942552632926310e-04
+2.421657410327593e+02,6.441660640514617e-04
+2.453886852407615e+02,5.960839112289988e-04
+2.486545230856737e+02,5.500125024592681e-04
+2.519638254318884e+02,5.059534503511166e-04
+2.553171707413388e+02,4.639064005616280e-04
+2.587151451746132e+02,4.238687692401765e-04
+2.621583426934157e+02,3.858355854739929e-04
+2.656473651643890e+02,3.497994838262677e-04
+2.691828224643207e+02,3.157502559917995e-04
+2.727653325867484e+02,2.836749566786239e-04
+2.763955217499849e+02,2.535575850098226e-04
+2.800740245065799e+02,2.253789392140678e-04
+2.838014838542390e+02,1.991163566090282e-04
+2.875785513482192e+02,1.747436063263091e-04
+2.914058872152196e+02,1.522306508004647e-04
+2.952841604687882e+02,1.315432356870308e-04
+2.992140490262656e+02,1.126429131048372e-04
+3.031962398272825e+02,9.548662425713702e-05
+3.072314289538370e+02,8.002650471140117e-05
+3.113203217519684e+02,6.620946342935848e-05
+3.154636329550513e+02,5.397733822906788e-05
+3.196620868087295e+02,4.326580751314617e-05
+3.239164171975137e+02,3.400480752194834e-05
+3.282273677730632e+02,2.611782381847667e-05
+3.325956920841755e+02,1.952165271230611e-05
+3.370221537085065e+02,1.412599818592687e-05
+3.415075263860411e+02,9.833047654432969e-06
+3.460525941543435e+02,6.537195096569775e-06
+3.506581514856054e+02,4.124448022100040e-06
+3.553250034255188e+02,6.802601632572620e-07
+3.600539657339972e+02,6.802601632572620e-07
+3.648458650277690e+02,6.802601632572620e-07
+3.697015389248697e+02,6.802601632572620e-07
+3.746218361910555e+02,6.802601632572620e-07
diff --git a/hazma/spectra/_neutrino/data/charged_rho_neutrino_mu.csv b/hazma/spectra/_neutrino/data/charged_rho_neutrino_mu.csv
index fa6c4e9..05167fc 100644
--- a/hazma/spectra/_neutrino/data/charged_rho_neutrino_mu.csv
+++ b/hazma/spectra/_neutrino/data/charged_rho_neutrino_mu.csv
@@ -1,499 +1,499 @@
-# energy,pi_pi
-5.109989461000004e-01,5.981885958357668e-05
-5.177997474297205e-01,6.140108081074460e-05
-5.246910595111344e-01,6.302486332804109e-05
-5.316740869370211e-01,6.469128701767842e-05
-5.387500503318877e-01,6.640145933179783e-05
-5.459201865653328e-01,6.815651597595985e-05
-5.531857489682500e-01,6.995762160871384e-05
-5.605480075519090e-01,7.180597055758685e-05
-5.680082492299514e-01,7.370278755183734e-05
-5.755677780433416e-01,7.564932847232588e-05
-5.832279153883121e-01,7.764688111885906e-05
-5.909900002473413e-01,7.969676599536863e-05
-5.988553894232063e-01,8.180033711329436e-05
-6.068254577761502e-01,8.395898281354254e-05
-6.149015984642063e-01,8.617412660739965e-05
-6.230852231867199e-01,8.844722803678363e-05
-6.313777624311118e-01,9.077978355422294e-05
-6.397806657229257e-01,9.317332742295642e-05
-6.482954018792038e-01,9.562943263755454e-05
-6.569234592652334e-01,9.814971186546444e-05
-6.656663460547122e-01,1.007358184098900e-04
-6.745255904933746e-01,1.033894471944198e-04
-6.835027411661272e-01,1.061123357698218e-04
-6.925993672677400e-01,1.089062653434293e-04
-7.018170588771390e-01,1.117730618315434e-04
-7.111574272353504e-01,1.147145969352877e-04
-7.206221050271436e-01,1.177327892403486e-04
-7.302127466664224e-01,1.208296053410418e-04
-7.399310285854144e-01,1.240070609891502e-04
-7.497786495277088e-01,1.272672222679789e-04
-7.597573308451960e-01,1.306122067920793e-04
-7.698688167989565e-01,1.340441849330944e-04
-7.801148748641560e-01,1.375653810721819e-04
-7.904972960389978e-01,1.411780748794751e-04
-8.010178951577874e-01,1.448846026210395e-04
-8.116785112081629e-01,1.486873584937895e-04
-8.224810076525477e-01,1.525887959888282e-04
-8.334272727538817e-01,1.565914292836734e-04
-8.445192199056873e-01,1.606978346638371e-04
-8.557587879665278e-01,1.649106519742198e-04
-8.671479415989179e-01,1.692325861007881e-04
-8.786886716127443e-01,1.736664084829940e-04
-8.903829953132563e-01,1.782149586574005e-04
-9.022329568536888e-01,1.828811458329719e-04
-9.142406275925772e-01,1.876679504984840e-04
-9.264081064558289e-01,1.925784260625070e-04
-9.387375203036126e-01,1.976157005264106e-04
-9.512310243021307e-01,2.027829781908312e-04
-9.638908023003399e-01,2.080835413960415e-04
-9.767190672116851e-01,2.135207522966499e-04
-9.897180614009142e-01,2.190980546710528e-04
-1.002890057076040e+00,2.248189757660534e-04
-1.016237356685521e+00,2.306871281770496e-04
-1.029762293320725e+00,2.367062117641847e-04
-1.043467231123748e+00,2.428800156048396e-04
-1.057354565700671e+00,2.492124199828343e-04
-1.071426724540301e+00,2.557073984146914e-04
-1.085686167438497e+00,2.623690197132962e-04
-1.100135386928138e+00,2.692014500892725e-04
-1.114776908714817e+00,2.762089552903735e-04
-1.129613292118326e+00,2.833959027791675e-04
-1.144647130520029e+00,2.907667639492712e-04
-1.159881051816175e+00,2.983261163803655e-04
-1.175317718877255e+00,3.060786461321998e-04
-1.190959830013468e+00,3.140291500777571e-04
-1.206810119446381e+00,3.221825382757345e-04
-1.222871357786870e+00,3.305438363824468e-04
-1.239146352519414e+00,3.391181881032368e-04
-1.255637948492848e+00,3.479108576834321e-04
-1.272349028417632e+00,3.569272324388534e-04
-1.289282513369746e+00,3.661728253258287e-04
-1.306441363301295e+00,3.756532775506349e-04
-1.323828577557901e+00,3.853743612182224e-04
-1.341447195402987e+00,3.953419820200452e-04
-1.359300296549032e+00,4.055621819607484e-04
-1.377391001695908e+00,4.160411421234146e-04
-1.395722473076369e+00,4.267851854730095e-04
-1.414297915008808e+00,4.378007796975909e-04
-1.433120574457365e+00,4.490945400867896e-04
-1.452193741599497e+00,4.606732324469825e-04
-1.471520750401093e+00,4.725437760525073e-04
-1.491104979199248e+00,4.847132466321853e-04
-1.510949851292792e+00,4.971888793903204e-04
-1.531058835540680e+00,5.099780720612629e-04
-1.551435446968342e+00,5.230883879965151e-04
-1.572083247382108e+00,5.365275592832582e-04
-1.593005845991801e+00,5.503034898930656e-04
-1.614206900041632e+00,5.644242588594550e-04
-1.635690115449474e+00,5.788981234827994e-04
-1.657459247454654e+00,5.937335225609973e-04
-1.679518101274365e+00,6.089390796441604e-04
-1.701870532768813e+00,6.245236063114253e-04
-1.724520449115217e+00,6.404961054678580e-04
-1.747471809490776e+00,6.568657746592391e-04
-1.770728625764733e+00,6.736420094023713e-04
-1.794294963199639e+00,6.908344065283448e-04
-1.818174941161962e+00,7.084527675360350e-04
-1.842372733842141e+00,7.265071019528855e-04
-1.866892570984235e+00,7.450076306998386e-04
-1.891738738625272e+00,7.639647894570457e-04
-1.916915579844447e+00,7.833892320267578e-04
-1.942427495522285e+00,8.032918336895685e-04
-1.968278945109908e+00,8.236836945499016e-04
-1.994474447408545e+00,8.445761428663981e-04
-2.021018581359408e+00,8.659807383625457e-04
-2.047915986844093e+00,8.879092755126179e-04
-2.075171365495615e+00,9.103737867976773e-04
-2.102789481520257e+00,9.333865459260548e-04
-2.130775162530341e+00,9.569600710124009e-04
-2.159133300388095e+00,9.811071277090195e-04
-2.187868852060737e+00,1.005840732282835e-03
-2.216986840486952e+00,1.031174154630935e-03
-2.246492355454893e+00,1.057120921227235e-03
-2.276390554491870e+00,1.083694817992344e-03
-2.306686663765882e+00,1.110909893078292e-03
-2.337385978999140e+00,1.138780459559265e-03
-2.368493866393755e+00,1.167321098019014e-03
-2.400015763569748e+00,1.196546659025078e-03
-2.431957180515527e+00,1.226472265479392e-03
-2.464323700551041e+00,1.257113314834291e-03
-2.497120981303727e+00,1.288485481162308e-03
-2.530354755697458e+00,1.320604717067526e-03
-2.564030832954658e+00,1.353487255425593e-03
-2.598155099611733e+00,1.387149610938798e-03
-2.632733520548046e+00,1.421608581491877e-03
-2.667772140028560e+00,1.456881249293477e-03
-2.703277082760371e+00,1.492984981787390e-03
-2.739254554963299e+00,1.529937432316804e-03
-2.775710845454729e+00,1.567756540524037e-03
-2.812652326748886e+00,1.606460532467164e-03
-2.850085456170743e+00,1.646067920434134e-03
-2.888016776984756e+00,1.686597502433866e-03
-2.926452919538616e+00,1.728068361342799e-03
-2.965400602422225e+00,1.770499863684307e-03
-3.004866633642099e+00,1.813911658017170e-03
-3.044857911811400e+00,1.858323672908174e-03
-3.085381427355800e+00,1.903756114462573e-03
-3.126444263735405e+00,1.950229463384928e-03
-3.168053598682930e+00,1.997764471541358e-03
-3.210216705458361e+00,2.046382157992905e-03
-3.252940954120311e+00,2.096103804468137e-03
-3.296233812814295e+00,2.146950950241600e-03
-3.340102849078156e+00,2.198945386383049e-03
-3.384555731164858e+00,2.252109149340696e-03
-3.429600229382890e+00,2.306464513819930e-03
-3.475244217454503e+00,2.362033984917069e-03
-3.521495673892030e+00,2.418840289465768e-03
-3.568362683392519e+00,2.476906366551656e-03
-3.615853438250924e+00,2.536255357148649e-03
-3.663976239792119e+00,2.596910592828137e-03
-3.712739499821943e+00,2.658895583489936e-03
-3.762151742097590e+00,2.722234004061470e-03
-3.812221603817538e+00,2.786949680109038e-03
-3.862957837131326e+00,2.853066572302510e-03
-3.914369310669422e+00,2.920608759671825e-03
-3.966465011093442e+00,2.989600421590985e-03
-4.019254044667013e+00,3.060065818422036e-03
-4.072745638847532e+00,3.132029270748474e-03
-4.126949143899116e+00,3.205515137124214e-03
-4.181874034527019e+00,3.280547790260747e-03
-4.237529911533794e+00,3.357151591571629e-03
-4.293926503497504e+00,3.435350863989576e-03
-4.351073668472265e+00,3.515169862967649e-03
-4.408981395711423e+00,3.596632745571838e-03
-4.467659807413660e+00,3.679763537568092e-03
-4.527119160492345e+00,3.764586098402484e-03
-4.587369848368424e+00,3.851124083968449e-03
-4.648422402787189e+00,3.939400907050231e-03
-4.710287495659198e+00,4.029439695326638e-03
-4.772975940925726e+00,4.121263246813910e-03
-4.836498696449016e+00,4.214893982620942e-03
-4.900866865927711e+00,4.310353896884501e-03
-4.966091700837762e+00,4.407664503745921e-03
-5.032184602399166e+00,4.506846781224591e-03
-5.099157123568898e+00,4.607921111837054e-03
-5.167020971060342e+00,4.710907219803627e-03
-5.235788007389615e+00,4.815824104677469e-03
-5.305470252949116e+00,4.922689971223533e-03
-5.376079888108687e+00,5.031522155367136e-03
-5.447629255344713e+00,5.142337046023838e-03
-5.520130861397575e+00,5.255150002613916e-03
-5.593597379457817e+00,1.832303166339078e-02
-5.668041651381405e+00,1.843988227235956e-02
-5.743476689934459e+00,1.855876995458455e-02
-5.819915681067875e+00,1.867970503295427e-02
-5.897371986222209e+00,1.880269631618247e-02
-5.975859144663244e+00,1.892775098578072e-02
-6.055390875848640e+00,1.905487447707070e-02
-6.135981081826065e+00,1.918407035395799e-02
-6.217643849663268e+00,1.931534017717665e-02
-6.300393453910474e+00,1.944868336570114e-02
-6.384244359095568e+00,1.958409705100874e-02
-6.469211222252461e+00,1.972157592386159e-02
-6.555308895483131e+00,1.986111207326296e-02
-6.642552428553752e+00,2.000269481722664e-02
-6.730957071525366e+00,2.014631052498198e-02
-6.820538277419596e+00,2.029194243021942e-02
-6.911311704919786e+00,2.043957043495999e-02
-7.003293221108139e+00,2.058917090360590e-02
-7.096498904239253e+00,2.074071644668270e-02
-7.190945046550597e+00,2.089417569366418e-02
-7.286648157110350e+00,2.104951305375484e-02
-7.383624964703179e+00,2.120668845887488e-02
-7.481892420754412e+00,2.136540979219327e-02
-7.581467702293113e+00,2.152236164719762e-02
-7.682368214954630e+00,2.167647787819714e-02
-7.784611596023049e+00,2.182770705258962e-02
-7.888215717514186e+00,2.197599724411087e-02
-7.993198689299590e+00,2.212129647648111e-02
-8.099578862272134e+00,2.226355233420578e-02
-8.207374831553709e+00,2.240271126288040e-02
-8.316605439745645e+00,2.253872159333844e-02
-8.427289780222369e+00,2.267152875375758e-02
-8.539447200468897e+00,2.280108067866544e-02
-8.653097305462770e+00,2.292731599112626e-02
-8.768259961100952e+00,2.305020217484332e-02
-8.884955297672384e+00,2.316966477173998e-02
-9.003203713376728e+00,2.328565724065018e-02
-9.123025877889937e+00,2.339812628371256e-02
-9.244442735977316e+00,2.350701822852680e-02
-9.367475511154611e+00,2.361228037242631e-02
-9.492145709397864e+00,2.371385941255154e-02
-9.618475122902632e+00,2.381163935539445e-02
-9.746485833893246e+00,2.390576224307079e-02
-9.876200218482735e+00,2.399598222786755e-02
-1.000764095058416e+01,2.408231264767792e-02
-1.014083100587397e+01,2.416470462806699e-02
-1.027579366580813e+01,2.424310914026764e-02
-1.041255252169172e+01,2.431747771754835e-02
-1.055113147880261e+01,2.438776347652852e-02
-1.069155476057010e+01,2.445392121110690e-02
-1.083384691280916e+01,2.451590508656105e-02
-1.097803280801099e+01,2.457367353512417e-02
-1.112413764969068e+01,2.462718465204187e-02
-1.127218697679282e+01,2.467639944725293e-02
-1.142220666815559e+01,2.472127990553310e-02
-1.157422294703442e+01,2.476179077403260e-02
-1.172826238568576e+01,2.479789912947388e-02
-1.188435191001184e+01,2.482957396346439e-02
-1.204251880426734e+01,2.485678784348306e-02
-1.220279071582860e+01,2.487951569411051e-02
-1.236519566002640e+01,2.489773584919184e-02
-1.252976202504293e+01,2.491142987696610e-02
-1.269651857687408e+01,2.492058306604366e-02
-1.286549446435766e+01,2.492518466891187e-02
-1.303671922426858e+01,2.492534025684984e-02
-1.321022278648188e+01,2.492409326928181e-02
-1.338603547920439e+01,2.492281315503800e-02
-1.356418803427607e+01,2.492149966268297e-02
-1.374471159254193e+01,2.492015155171597e-02
-1.392763770929538e+01,2.491876808016139e-02
-1.411299835979406e+01,2.491734804914166e-02
-1.430082594484909e+01,2.491589009119542e-02
-1.449115329648866e+01,2.491439514194267e-02
-1.468401368369706e+01,2.491286022687571e-02
-1.487944081823007e+01,2.491128503275761e-02
-1.507746886050769e+01,2.490966839325933e-02
-1.527813242558536e+01,2.490800932455613e-02
-1.548146658920460e+01,2.490630663863632e-02
-1.568750689392428e+01,2.490455804186153e-02
-1.589628935533334e+01,2.490276616441035e-02
-1.610785046834630e+01,2.490092600992756e-02
-1.632222721358253e+01,2.489903744700655e-02
-1.653945706383039e+01,2.489709995089993e-02
-1.675957799059750e+01,2.489511069874421e-02
-1.698262847074799e+01,2.489306976192584e-02
-1.720864749322833e+01,2.489097542725142e-02
-1.743767456588247e+01,2.488882596931153e-02
-1.766974972235779e+01,2.488662080345909e-02
-1.790491352910293e+01,2.488436067102601e-02
-1.814320709245877e+01,2.488203527723980e-02
-1.838467206584373e+01,2.487965224586805e-02
-1.862935065703476e+01,2.487720684378648e-02
-1.887728563554524e+01,2.487469760842005e-02
-1.912852034010097e+01,2.487212272187389e-02
-1.938309868621575e+01,2.486948069187125e-02
-1.964106517386779e+01,2.486676963665065e-02
-1.990246489527821e+01,2.486398786101073e-02
-2.016734354279313e+01,2.486113361094537e-02
-2.043574741687061e+01,2.485820427756780e-02
-2.070772343417394e+01,2.485519980206495e-02
-2.098331913577260e+01,2.485211643840991e-02
-2.126258269545236e+01,2.484895329337517e-02
-2.154556292813609e+01,2.484570669403176e-02
-2.183230929841639e+01,2.484237609680803e-02
-2.212287192920208e+01,2.483895926794741e-02
-2.241730161047954e+01,2.483545006312011e-02
-2.271564980819080e+01,2.483185602164512e-02
-2.301796867322965e+01,2.482816553606987e-02
-2.332431105055760e+01,2.482437918657011e-02
-2.363473048844113e+01,2.482049457190217e-02
-2.394928124781178e+01,2.481651295925697e-02
-2.426801831175101e+01,2.481242045499078e-02
-2.459099739510108e+01,2.480822571716382e-02
-2.491827495420394e+01,2.480392236086827e-02
-2.524990819676981e+01,2.479950760883130e-02
-2.558595509187690e+01,2.479497853703264e-02
-2.592647438010444e+01,2.479033239111705e-02
-2.627152558380039e+01,2.478556609767363e-02
-2.662116901748591e+01,2.478067660409192e-02
-2.697546579839821e+01,2.477566366209708e-02
-2.733447785717389e+01,2.477051553871851e-02
-2.769826794867418e+01,2.476523751770668e-02
-2.806689966295452e+01,2.475982297780507e-02
-2.844043743637996e+01,2.475426787946124e-02
-2.881894656288861e+01,2.474857352773350e-02
-2.920249320540491e+01,2.474273031555652e-02
-2.959114440740484e+01,2.473673669681772e-02
-2.998496810463500e+01,2.473058910843499e-02
-3.038403313698771e+01,2.472428358700143e-02
-3.078840926053425e+01,2.471781629494745e-02
-3.119816715971793e+01,2.471118255486914e-02
-3.161337845970976e+01,2.470437902607767e-02
-3.203411573892846e+01,2.469740097041579e-02
-3.246045254172703e+01,2.469024396660301e-02
-3.289246339124822e+01,2.468290442301294e-02
-3.333022380245109e+01,2.467537683771119e-02
-3.377381029531094e+01,2.466765683476227e-02
-3.422330040819485e+01,2.465972680537938e-02
-3.467877271141543e+01,2.465161977990120e-02
-3.514030682096466e+01,2.464329387691400e-02
-3.560798341243070e+01,2.463475535996706e-02
-3.608188423509995e+01,2.462599932840312e-02
-3.656209212624666e+01,2.461702047281032e-02
-3.704869102561282e+01,2.460781398111243e-02
-3.754176599008069e+01,2.459837207410318e-02
-3.804140320854066e+01,2.458869134728598e-02
-3.854769001695692e+01,2.457876492108282e-02
-3.906071491363382e+01,2.456858696192747e-02
-3.958056757468505e+01,2.455815119602561e-02
-4.010733886970904e+01,2.454745145137874e-02
-4.064112087767285e+01,2.453648108619606e-02
-4.118200690300744e+01,2.452523364317075e-02
-4.173009149191716e+01,2.451370252435698e-02
-4.228547044890630e+01,2.450188041994248e-02
-4.284824085352565e+01,2.448976063173392e-02
-4.341850107734180e+01,2.447733601514846e-02
-4.399635080113253e+01,2.446459864168556e-02
-4.458189103231066e+01,2.445154387471053e-02
-4.517522412258016e+01,2.443815685360232e-02
-4.577645378582711e+01,2.442443667274054e-02
-4.638568511624867e+01,2.441036990521150e-02
-4.700302460672353e+01,2.439591282192918e-02
-4.762858016742661e+01,2.438118164559916e-02
-4.826246114469173e+01,2.436603643310167e-02
-4.890477834012515e+01,2.435051419708577e-02
-4.955564402997351e+01,2.433460632544729e-02
-5.021517198474982e+01,2.431830223598759e-02
-5.088347748912003e+01,2.430159252797500e-02
-5.156067736205493e+01,2.428446833845615e-02
-5.224688997724986e+01,2.426691975990099e-02
-5.294223528381627e+01,2.424893786286608e-02
-5.364683482724874e+01,2.423050920699747e-02
-5.436081177067085e+01,2.421162658036769e-02
-5.508429091636422e+01,2.419227847412365e-02
-5.581739872758344e+01,2.417245398783732e-02
-5.656026335066189e+01,2.415214132167160e-02
-5.731301463741156e+01,2.413132973069824e-02
-5.807578416782092e+01,2.411000874833551e-02
-5.884870527305498e+01,2.408816538395301e-02
-5.963191305876141e+01,2.406578732624397e-02
-6.042554442868680e+01,2.404286323970239e-02
-6.122973810860727e+01,2.401938010984660e-02
-6.204463467057775e+01,2.399532546712822e-02
-6.287037655750346e+01,2.397069093029470e-02
-6.370710810803898e+01,2.394544906677137e-02
-6.455497558181844e+01,2.391960077546960e-02
-6.541412718502147e+01,2.389312731311076e-02
-6.628471309627953e+01,2.386601471054644e-02
-6.716688549292685e+01,2.383824872058135e-02
-6.806079857760092e+01,2.380981491409670e-02
-6.896660860519684e+01,2.378069835294296e-02
-6.988447391018070e+01,2.375088374293307e-02
-7.081455493426590e+01,2.372037385748802e-02
-7.175701425445840e+01,2.368909921535086e-02
-7.271201661147492e+01,2.365709825377887e-02
-7.367972893853944e+01,2.362433612152789e-02
-7.466032039056286e+01,2.359079636052733e-02
-7.565396237371111e+01,2.355646244270700e-02
-7.666082857536672e+01,2.352131708533533e-02
-7.768109499448909e+01,2.348534322011183e-02
-7.871493997237923e+01,2.344852307431787e-02
-7.976254422385303e+01,2.341083876561363e-02
-8.082409086883041e+01,2.337227201454862e-02
-8.189976546434434e+01,2.333280451909507e-02
-8.298975603697592e+01,2.329243384313743e-02
-8.409425311572129e+01,2.325109139493867e-02
-8.521344976529578e+01,2.320880683529726e-02
-8.634754161988141e+01,2.316554588470731e-02
-8.749672691732347e+01,2.312128652100742e-02
-8.866120653378248e+01,2.307600950978281e-02
-8.984118401884668e+01,2.302969419690439e-02
-9.103686563111253e+01,2.298231994547039e-02
-9.224846037423841e+01,2.293386559513490e-02
-9.347618003347813e+01,2.288430997960172e-02
-9.472023921270083e+01,2.283363161330049e-02
-9.598085537190339e+01,2.278180848318200e-02
-9.725824886522220e+01,2.272881880176583e-02
-9.855264297945068e+01,2.267464016885922e-02
-9.986426397306994e+01,2.261925013579363e-02
-1.011933411157979e+02,2.256262578360033e-02
-1.025401067286656e+02,2.250474435216052e-02
-1.039047962246269e+02,2.244558261168347e-02
-1.052876481497079e+02,2.238511724393403e-02
-1.066889042247047e+02,2.232332457525700e-02
-1.081088093874363e+02,2.226018101561301e-02
-1.095476118355584e+02,2.219566273495390e-02
-1.110055630699492e+02,2.212974558831153e-02
-1.124829179386708e+02,2.206240563102727e-02
-1.139799346815163e+02,2.199361881154123e-02
-1.154968749751500e+02,2.192335973919209e-02
-1.170340039788482e+02,2.185160519628793e-02
-1.185915903808484e+02,2.177833037046916e-02
-1.201699064453161e+02,2.170351103152855e-02
-1.217692280599359e+02,2.162712209085142e-02
-1.233898347841363e+02,2.154913927182482e-02
-1.250320098979566e+02,2.146953917185114e-02
-1.266960404515641e+02,2.138829656949774e-02
-1.283822173154292e+02,2.130538726555114e-02
-1.300908352311701e+02,2.122078789125203e-02
-1.318221928630729e+02,2.113447383874211e-02
-1.335765928502979e+02,2.104642231608710e-02
-1.353543418597802e+02,2.095660951240026e-02
-1.371557506398351e+02,2.086501221775291e-02
-1.389811340744765e+02,2.077160909172128e-02
-1.408308112384579e+02,2.067637654512413e-02
-1.427051054530463e+02,2.057929477019566e-02
-1.446043443425390e+02,2.048033832711757e-02
-1.465288598915311e+02,2.037949067730091e-02
-1.484789885029464e+02,2.027673054253670e-02
-1.504550710568402e+02,2.017203883003009e-02
-1.524574529699846e+02,2.006539603702298e-02
-1.544864842562470e+02,1.995678570721934e-02
-1.565425195877721e+02,1.984619041163860e-02
-1.586259183569780e+02,1.973359480382659e-02
-1.607370447393776e+02,6.665927532578641e-03
-1.628762677572367e+02,6.549291035464071e-03
-1.650439613440772e+02,6.430607706766285e-03
-1.672405044100416e+02,6.309875733037184e-03
-1.694662809081252e+02,6.187082900500939e-03
-1.717216799012910e+02,6.062221370439727e-03
-1.740070956304771e+02,5.935285223137163e-03
-1.763229275835099e+02,5.806270562338600e-03
-1.786695805649339e+02,5.675174077508065e-03
-1.810474647667706e+02,5.541996961513975e-03
-1.834569958402209e+02,5.406740776599825e-03
-1.858985949683187e+02,5.269410308306258e-03
-1.883726889395541e+02,5.130012478139616e-03
-1.908797102224754e+02,4.988557310960685e-03
-1.934200970412841e+02,4.845056801407841e-03
-1.959942934524359e+02,4.699528616029766e-03
-1.986027494222610e+02,4.551990241437774e-03
-2.012459209056179e+02,4.402471468704748e-03
-2.039242699255936e+02,4.250979107217496e-03
-2.066382646542653e+02,4.097561508474776e-03
-2.093883794945350e+02,3.942248486065305e-03
-2.121750951630555e+02,3.785078018822642e-03
-2.149988987742591e+02,3.626122252377641e-03
-2.178602839255040e+02,3.468142917800298e-03
-2.207597507833550e+02,3.312977238562816e-03
-2.236978061710120e+02,3.160675942453716e-03
-2.266749636569015e+02,3.011290625788878e-03
-2.296917436444483e+02,2.864873164072307e-03
-2.327486734630417e+02,2.721475636181577e-03
-2.358462874602108e+02,2.581150092028169e-03
-2.389851270950289e+02,2.443949392810901e-03
-2.421657410327593e+02,2.309927253753488e-03
-2.453886852407615e+02,2.179134231182835e-03
-2.486545230856737e+02,2.051625819504140e-03
-2.519638254318884e+02,1.927454967822364e-03
-2.553171707413388e+02,1.806673283482996e-03
-2.587151451746132e+02,1.689335571939875e-03
-2.621583426934157e+02,1.575494309881858e-03
-2.656473651643890e+02,1.465202558567270e-03
-2.691828224643207e+02,1.358512683968922e-03
-2.727653325867484e+02,1.255477384270447e-03
-2.763955217499849e+02,1.156148643865617e-03
-2.800740245065799e+02,1.060577677966539e-03
-2.838014838542390e+02,9.688157859732873e-04
-2.875785513482192e+02,8.809131850833025e-04
-2.914058872152196e+02,7.969195034356709e-04
-2.952841604687882e+02,7.168833534610810e-04
-2.992140490262656e+02,6.408526773131444e-04
-3.031962398272825e+02,5.688742327450484e-04
-3.072314289538370e+02,5.009929214838030e-04
-3.113203217519684e+02,4.372538257417899e-04
-3.154636329550513e+02,3.776992301546889e-04
-3.196620868087295e+02,3.223698115310261e-04
-3.239164171975137e+02,2.713053890820518e-04
-3.282273677730632e+02,2.245431982434819e-04
-3.325956920841755e+02,1.821185203746029e-04
-3.370221537085065e+02,1.440633506699170e-04
-3.415075263860411e+02,1.104106502646192e-04
-3.460525941543435e+02,8.118579627338615e-05
-3.506581514856054e+02,5.641460312096320e-05
+# energy,pi_pi0
+5.109989461000004e-01,2.990942979178834e-05
+5.177997474297205e-01,3.070054040537230e-05
+5.246910595111344e-01,3.151243166402055e-05
+5.316740869370211e-01,3.234564350883921e-05
+5.387500503318877e-01,3.320072966589892e-05
+5.459201865653328e-01,3.407825798797993e-05
+5.531857489682500e-01,3.497881080435692e-05
+5.605480075519090e-01,3.590298527879342e-05
+5.680082492299514e-01,3.685139377591867e-05
+5.755677780433416e-01,3.782466423616294e-05
+5.832279153883121e-01,3.882344055942953e-05
+5.909900002473413e-01,3.984838299768432e-05
+5.988553894232063e-01,4.090016855664718e-05
+6.068254577761502e-01,4.197949140677127e-05
+6.149015984642063e-01,4.308706330369982e-05
+6.230852231867199e-01,4.422361401839182e-05
+6.313777624311118e-01,4.538989177711147e-05
+6.397806657229257e-01,4.658666371147821e-05
+6.482954018792038e-01,4.781471631877727e-05
+6.569234592652334e-01,4.907485593273222e-05
+6.656663460547122e-01,5.036790920494499e-05
+6.745255904933746e-01,5.169472359720988e-05
+6.835027411661272e-01,5.305616788491092e-05
+6.925993672677400e-01,5.445313267171463e-05
+7.018170588771390e-01,5.588653091577169e-05
+7.111574272353504e-01,5.735729846764384e-05
+7.206221050271436e-01,5.886639462017429e-05
+7.302127466664224e-01,6.041480267052091e-05
+7.399310285854144e-01,6.200353049457508e-05
+7.497786495277088e-01,6.363361113398943e-05
+7.597573308451960e-01,6.530610339603964e-05
+7.698688167989565e-01,6.702209246654718e-05
+7.801148748641560e-01,6.878269053609095e-05
+7.904972960389978e-01,7.058903743973755e-05
+8.010178951577874e-01,7.244230131051974e-05
+8.116785112081629e-01,7.434367924689476e-05
+8.224810076525477e-01,7.629439799441412e-05
+8.334272727538817e-01,7.829571464183671e-05
+8.445192199056873e-01,8.034891733191854e-05
+8.557587879665278e-01,8.245532598710991e-05
+8.671479415989179e-01,8.461629305039407e-05
+8.786886716127443e-01,8.683320424149702e-05
+8.903829953132563e-01,8.910747932870024e-05
+9.022329568536888e-01,9.144057291648597e-05
+9.142406275925772e-01,9.383397524924198e-05
+9.264081064558289e-01,9.628921303125351e-05
+9.387375203036126e-01,9.880785026320529e-05
+9.512310243021307e-01,1.013914890954156e-04
+9.638908023003399e-01,1.040417706980208e-04
+9.767190672116851e-01,1.067603761483249e-04
+9.897180614009142e-01,1.095490273355264e-04
+1.002890057076040e+00,1.124094878830267e-04
+1.016237356685521e+00,1.153435640885248e-04
+1.029762293320725e+00,1.183531058820924e-04
+1.043467231123748e+00,1.214400078024198e-04
+1.057354565700671e+00,1.246062099914172e-04
+1.071426724540301e+00,1.278536992073457e-04
+1.085686167438497e+00,1.311845098566481e-04
+1.100135386928138e+00,1.346007250446362e-04
+1.114776908714817e+00,1.381044776451868e-04
+1.129613292118326e+00,1.416979513895838e-04
+1.144647130520029e+00,1.453833819746356e-04
+1.159881051816175e+00,1.491630581901827e-04
+1.175317718877255e+00,1.530393230660999e-04
+1.190959830013468e+00,1.570145750388785e-04
+1.206810119446381e+00,1.610912691378673e-04
+1.222871357786870e+00,1.652719181912234e-04
+1.239146352519414e+00,1.695590940516184e-04
+1.255637948492848e+00,1.739554288417160e-04
+1.272349028417632e+00,1.784636162194267e-04
+1.289282513369746e+00,1.830864126629144e-04
+1.306441363301295e+00,1.878266387753174e-04
+1.323828577557901e+00,1.926871806091112e-04
+1.341447195402987e+00,1.976709910100226e-04
+1.359300296549032e+00,2.027810909803742e-04
+1.377391001695908e+00,2.080205710617073e-04
+1.395722473076369e+00,2.133925927365048e-04
+1.414297915008808e+00,2.189003898487954e-04
+1.433120574457365e+00,2.245472700433948e-04
+1.452193741599497e+00,2.303366162234913e-04
+1.471520750401093e+00,2.362718880262536e-04
+1.491104979199248e+00,2.423566233160927e-04
+1.510949851292792e+00,2.485944396951602e-04
+1.531058835540680e+00,2.549890360306314e-04
+1.551435446968342e+00,2.615441939982576e-04
+1.572083247382108e+00,2.682637796416291e-04
+1.593005845991801e+00,2.751517449465328e-04
+1.614206900041632e+00,2.822121294297275e-04
+1.635690115449474e+00,2.894490617413997e-04
+1.657459247454654e+00,2.968667612804987e-04
+1.679518101274365e+00,3.044695398220802e-04
+1.701870532768813e+00,3.122618031557127e-04
+1.724520449115217e+00,3.202480527339290e-04
+1.747471809490776e+00,3.284328873296195e-04
+1.770728625764733e+00,3.368210047011856e-04
+1.794294963199639e+00,3.454172032641724e-04
+1.818174941161962e+00,3.542263837680175e-04
+1.842372733842141e+00,3.632535509764428e-04
+1.866892570984235e+00,3.725038153499193e-04
+1.891738738625272e+00,3.819823947285229e-04
+1.916915579844447e+00,3.916946160133789e-04
+1.942427495522285e+00,4.016459168447842e-04
+1.968278945109908e+00,4.118418472749508e-04
+1.994474447408545e+00,4.222880714331990e-04
+2.021018581359408e+00,4.329903691812729e-04
+2.047915986844093e+00,4.439546377563090e-04
+2.075171365495615e+00,4.551868933988386e-04
+2.102789481520257e+00,4.666932729630274e-04
+2.130775162530341e+00,4.784800355062005e-04
+2.159133300388095e+00,4.905535638545098e-04
+2.187868852060737e+00,5.029203661414177e-04
+2.216986840486952e+00,5.155870773154675e-04
+2.246492355454893e+00,5.285604606136173e-04
+2.276390554491870e+00,5.418474089961722e-04
+2.306686663765882e+00,5.554549465391461e-04
+2.337385978999140e+00,5.693902297796327e-04
+2.368493866393755e+00,5.836605490095069e-04
+2.400015763569748e+00,5.982733295125390e-04
+2.431957180515527e+00,6.132361327396958e-04
+2.464323700551041e+00,6.285566574171453e-04
+2.497120981303727e+00,6.442427405811538e-04
+2.530354755697458e+00,6.603023585337628e-04
+2.564030832954658e+00,6.767436277127967e-04
+2.598155099611733e+00,6.935748054693989e-04
+2.632733520548046e+00,7.108042907459383e-04
+2.667772140028560e+00,7.284406246467386e-04
+2.703277082760371e+00,7.464924908936948e-04
+2.739254554963299e+00,7.649687161584022e-04
+2.775710845454729e+00,7.838782702620185e-04
+2.812652326748886e+00,8.032302662335819e-04
+2.850085456170743e+00,8.230339602170671e-04
+2.888016776984756e+00,8.432987512169332e-04
+2.926452919538616e+00,8.640341806713997e-04
+2.965400602422225e+00,8.852499318421537e-04
+3.004866633642099e+00,9.069558290085852e-04
+3.044857911811400e+00,9.291618364540872e-04
+3.085381427355800e+00,9.518780572312864e-04
+3.126444263735405e+00,9.751147316924641e-04
+3.168053598682930e+00,9.988822357706790e-04
+3.210216705458361e+00,1.023191078996452e-03
+3.252940954120311e+00,1.048051902234068e-03
+3.296233812814295e+00,1.073475475120800e-03
+3.340102849078156e+00,1.099472693191525e-03
+3.384555731164858e+00,1.126054574670348e-03
+3.429600229382890e+00,1.153232256909965e-03
+3.475244217454503e+00,1.181016992458535e-03
+3.521495673892030e+00,1.209420144732884e-03
+3.568362683392519e+00,1.238453183275828e-03
+3.615853438250924e+00,1.268127678574325e-03
+3.663976239792119e+00,1.298455296414069e-03
+3.712739499821943e+00,1.329447791744968e-03
+3.762151742097590e+00,1.361117002030735e-03
+3.812221603817538e+00,1.393474840054519e-03
+3.862957837131326e+00,1.426533286151255e-03
+3.914369310669422e+00,1.460304379835913e-03
+3.966465011093442e+00,1.494800210795493e-03
+4.019254044667013e+00,1.530032909211018e-03
+4.072745638847532e+00,1.566014635374237e-03
+4.126949143899116e+00,1.602757568562107e-03
+4.181874034527019e+00,1.640273895130374e-03
+4.237529911533794e+00,1.678575795785814e-03
+4.293926503497504e+00,1.717675431994788e-03
+4.351073668472265e+00,1.757584931483824e-03
+4.408981395711423e+00,1.798316372785919e-03
+4.467659807413660e+00,1.839881768784046e-03
+4.527119160492345e+00,1.882293049201242e-03
+4.587369848368424e+00,1.925562041984224e-03
+4.648422402787189e+00,1.969700453525115e-03
+4.710287495659198e+00,2.014719847663319e-03
+4.772975940925726e+00,2.060631623406955e-03
+4.836498696449016e+00,2.107446991310471e-03
+4.900866865927711e+00,2.155176948442250e-03
+4.966091700837762e+00,2.203832251872961e-03
+5.032184602399166e+00,2.253423390612296e-03
+5.099157123568898e+00,2.303960555918527e-03
+5.167020971060342e+00,2.355453609901813e-03
+5.235788007389615e+00,2.407912052338734e-03
+5.305470252949116e+00,2.461344985611767e-03
+5.376079888108687e+00,2.515761077683568e-03
+5.447629255344713e+00,2.571168523011919e-03
+5.520130861397575e+00,2.627575001306958e-03
+5.593597379457817e+00,9.161515831695392e-03
+5.668041651381405e+00,9.219941136179778e-03
+5.743476689934459e+00,9.279384977292273e-03
+5.819915681067875e+00,9.339852516477133e-03
+5.897371986222209e+00,9.401348158091237e-03
+5.975859144663244e+00,9.463875492890361e-03
+6.055390875848640e+00,9.527437238535349e-03
+6.135981081826065e+00,9.592035176978993e-03
+6.217643849663268e+00,9.657670088588326e-03
+6.300393453910474e+00,9.724341682850570e-03
+6.384244359095568e+00,9.792048525504369e-03
+6.469211222252461e+00,9.860787961930795e-03
+6.555308895483131e+00,9.930556036631481e-03
+6.642552428553752e+00,1.000134740861332e-02
+6.730957071525366e+00,1.007315526249099e-02
+6.820538277419596e+00,1.014597121510971e-02
+6.911311704919786e+00,1.021978521747999e-02
+7.003293221108139e+00,1.029458545180295e-02
+7.096498904239253e+00,1.037035822334135e-02
+7.190945046550597e+00,1.044708784683209e-02
+7.286648157110350e+00,1.052475652687742e-02
+7.383624964703179e+00,1.060334422943744e-02
+7.481892420754412e+00,1.068270489609664e-02
+7.581467702293113e+00,1.076118082359881e-02
+7.682368214954630e+00,1.083823893909857e-02
+7.784611596023049e+00,1.091385352629481e-02
+7.888215717514186e+00,1.098799862205543e-02
+7.993198689299590e+00,1.106064823824056e-02
+8.099578862272134e+00,1.113177616710289e-02
+8.207374831553709e+00,1.120135563144020e-02
+8.316605439745645e+00,1.126936079666922e-02
+8.427289780222369e+00,1.133576437687879e-02
+8.539447200468897e+00,1.140054033933272e-02
+8.653097305462770e+00,1.146365799556313e-02
+8.768259961100952e+00,1.152510108742166e-02
+8.884955297672384e+00,1.158483238586999e-02
+9.003203713376728e+00,1.164282862032509e-02
+9.123025877889937e+00,1.169906314185628e-02
+9.244442735977316e+00,1.175350911426340e-02
+9.367475511154611e+00,1.180614018621316e-02
+9.492145709397864e+00,1.185692970627577e-02
+9.618475122902632e+00,1.190581967769723e-02
+9.746485833893246e+00,1.195288112153540e-02
+9.876200218482735e+00,1.199799111393377e-02
+1.000764095058416e+01,1.204115632383896e-02
+1.014083100587397e+01,1.208235231403350e-02
+1.027579366580813e+01,1.212155457013382e-02
+1.041255252169172e+01,1.215873885877418e-02
+1.055113147880261e+01,1.219388173826426e-02
+1.069155476057010e+01,1.222696060555345e-02
+1.083384691280916e+01,1.225795254328053e-02
+1.097803280801099e+01,1.228683676756209e-02
+1.112413764969068e+01,1.231359232602094e-02
+1.127218697679282e+01,1.233819972362647e-02
+1.142220666815559e+01,1.236063995276655e-02
+1.157422294703442e+01,1.238089538701630e-02
+1.172826238568576e+01,1.239894956473694e-02
+1.188435191001184e+01,1.241478698173219e-02
+1.204251880426734e+01,1.242839392174153e-02
+1.220279071582860e+01,1.243975784705526e-02
+1.236519566002640e+01,1.244886792459592e-02
+1.252976202504293e+01,1.245571493848305e-02
+1.269651857687408e+01,1.246029153302183e-02
+1.286549446435766e+01,1.246259233445593e-02
+1.303671922426858e+01,1.246267012842492e-02
+1.321022278648188e+01,1.246204663464090e-02
+1.338603547920439e+01,1.246140657751900e-02
+1.356418803427607e+01,1.246074983134149e-02
+1.374471159254193e+01,1.246007577585798e-02
+1.392763770929538e+01,1.245938404008070e-02
+1.411299835979406e+01,1.245867402457083e-02
+1.430082594484909e+01,1.245794504559771e-02
+1.449115329648866e+01,1.245719757097134e-02
+1.468401368369706e+01,1.245643011343786e-02
+1.487944081823007e+01,1.245564251637881e-02
+1.507746886050769e+01,1.245483419662967e-02
+1.527813242558536e+01,1.245400466227806e-02
+1.548146658920460e+01,1.245315331931816e-02
+1.568750689392428e+01,1.245227902093076e-02
+1.589628935533334e+01,1.245138308220518e-02
+1.610785046834630e+01,1.245046300496378e-02
+1.632222721358253e+01,1.244951872350327e-02
+1.653945706383039e+01,1.244854997544997e-02
+1.675957799059750e+01,1.244755534937210e-02
+1.698262847074799e+01,1.244653488096292e-02
+1.720864749322833e+01,1.244548771362571e-02
+1.743767456588247e+01,1.244441298465577e-02
+1.766974972235779e+01,1.244331040172954e-02
+1.790491352910293e+01,1.244218033551301e-02
+1.814320709245877e+01,1.244101763861990e-02
+1.838467206584373e+01,1.243982612293403e-02
+1.862935065703476e+01,1.243860342189324e-02
+1.887728563554524e+01,1.243734880421003e-02
+1.912852034010097e+01,1.243606136093694e-02
+1.938309868621575e+01,1.243474034593562e-02
+1.964106517386779e+01,1.243338481832532e-02
+1.990246489527821e+01,1.243199393050536e-02
+2.016734354279313e+01,1.243056680547269e-02
+2.043574741687061e+01,1.242910213878390e-02
+2.070772343417394e+01,1.242759990103248e-02
+2.098331913577260e+01,1.242605821920495e-02
+2.126258269545236e+01,1.242447664668759e-02
+2.154556292813609e+01,1.242285334701588e-02
+2.183230929841639e+01,1.242118804840401e-02
+2.212287192920208e+01,1.241947963397370e-02
+2.241730161047954e+01,1.241772503156005e-02
+2.271564980819080e+01,1.241592801082256e-02
+2.301796867322965e+01,1.241408276803494e-02
+2.332431105055760e+01,1.241218959328506e-02
+2.363473048844113e+01,1.241024728595108e-02
+2.394928124781178e+01,1.240825647962849e-02
+2.426801831175101e+01,1.240621022749539e-02
+2.459099739510108e+01,1.240411285858191e-02
+2.491827495420394e+01,1.240196118043414e-02
+2.524990819676981e+01,1.239975380441565e-02
+2.558595509187690e+01,1.239748926851632e-02
+2.592647438010444e+01,1.239516619555852e-02
+2.627152558380039e+01,1.239278304883682e-02
+2.662116901748591e+01,1.239033830204596e-02
+2.697546579839821e+01,1.238783183104854e-02
+2.733447785717389e+01,1.238525776935925e-02
+2.769826794867418e+01,1.238261875885334e-02
+2.806689966295452e+01,1.237991148890254e-02
+2.844043743637996e+01,1.237713393973062e-02
+2.881894656288861e+01,1.237428676386675e-02
+2.920249320540491e+01,1.237136515777826e-02
+2.959114440740484e+01,1.236836834840886e-02
+2.998496810463500e+01,1.236529455421750e-02
+3.038403313698771e+01,1.236214179350072e-02
+3.078840926053425e+01,1.235890814747372e-02
+3.119816715971793e+01,1.235559127743457e-02
+3.161337845970976e+01,1.235218951303884e-02
+3.203411573892846e+01,1.234870048520789e-02
+3.246045254172703e+01,1.234512198330150e-02
+3.289246339124822e+01,1.234145221150647e-02
+3.333022380245109e+01,1.233768841885560e-02
+3.377381029531094e+01,1.233382841738113e-02
+3.422330040819485e+01,1.232986340268969e-02
+3.467877271141543e+01,1.232580988995060e-02
+3.514030682096466e+01,1.232164693845700e-02
+3.560798341243070e+01,1.231737767998353e-02
+3.608188423509995e+01,1.231299966420156e-02
+3.656209212624666e+01,1.230851023640516e-02
+3.704869102561282e+01,1.230390699055621e-02
+3.754176599008069e+01,1.229918603705159e-02
+3.804140320854066e+01,1.229434567364299e-02
+3.854769001695692e+01,1.228938246054141e-02
+3.906071491363382e+01,1.228429348096374e-02
+3.958056757468505e+01,1.227907559801281e-02
+4.010733886970904e+01,1.227372572568937e-02
+4.064112087767285e+01,1.226824054309803e-02
+4.118200690300744e+01,1.226261682158537e-02
+4.173009149191716e+01,1.225685126217849e-02
+4.228547044890630e+01,1.225094020997124e-02
+4.284824085352565e+01,1.224488031586696e-02
+4.341850107734180e+01,1.223866800757423e-02
+4.399635080113253e+01,1.223229932084278e-02
+4.458189103231066e+01,1.222577193735526e-02
+4.517522412258016e+01,1.221907842680116e-02
+4.577645378582711e+01,1.221221833637027e-02
+4.638568511624867e+01,1.220518495260575e-02
+4.700302460672353e+01,1.219795641096459e-02
+4.762858016742661e+01,1.219059082279958e-02
+4.826246114469173e+01,1.218301821655083e-02
+4.890477834012515e+01,1.217525709854289e-02
+4.955564402997351e+01,1.216730316272364e-02
+5.021517198474982e+01,1.215915111799380e-02
+5.088347748912003e+01,1.215079626398750e-02
+5.156067736205493e+01,1.214223416922807e-02
+5.224688997724986e+01,1.213345987995050e-02
+5.294223528381627e+01,1.212446893143304e-02
+5.364683482724874e+01,1.211525460349873e-02
+5.436081177067085e+01,1.210581329018384e-02
+5.508429091636422e+01,1.209613923706183e-02
+5.581739872758344e+01,1.208622699391866e-02
+5.656026335066189e+01,1.207607066083580e-02
+5.731301463741156e+01,1.206566486534912e-02
+5.807578416782092e+01,1.205500437416776e-02
+5.884870527305498e+01,1.204408269197650e-02
+5.963191305876141e+01,1.203289366312199e-02
+6.042554442868680e+01,1.202143161985120e-02
+6.122973810860727e+01,1.200969005492330e-02
+6.204463467057775e+01,1.199766273356411e-02
+6.287037655750346e+01,1.198534546514735e-02
+6.370710810803898e+01,1.197272453338568e-02
+6.455497558181844e+01,1.195980038773480e-02
+6.541412718502147e+01,1.194656365655538e-02
+6.628471309627953e+01,1.193300735527322e-02
+6.716688549292685e+01,1.191912436029067e-02
+6.806079857760092e+01,1.190490745704835e-02
+6.896660860519684e+01,1.189034917647148e-02
+6.988447391018070e+01,1.187544187146653e-02
+7.081455493426590e+01,1.186018692874401e-02
+7.175701425445840e+01,1.184454960767543e-02
+7.271201661147492e+01,1.182854912688943e-02
+7.367972893853944e+01,1.181216806076394e-02
+7.466032039056286e+01,1.179539818026366e-02
+7.565396237371111e+01,1.177823122135350e-02
+7.666082857536672e+01,1.176065854266766e-02
+7.768109499448909e+01,1.174267161005592e-02
+7.871493997237923e+01,1.172426153715894e-02
+7.976254422385303e+01,1.170541938280682e-02
+8.082409086883041e+01,1.168613600727431e-02
+8.189976546434434e+01,1.166640225954754e-02
+8.298975603697592e+01,1.164621692156871e-02
+8.409425311572129e+01,1.162554569746934e-02
+8.521344976529578e+01,1.160440341764863e-02
+8.634754161988141e+01,1.158277294235365e-02
+8.749672691732347e+01,1.156064326050371e-02
+8.866120653378248e+01,1.153800475489140e-02
+8.984118401884668e+01,1.151484709845220e-02
+9.103686563111253e+01,1.149115997273519e-02
+9.224846037423841e+01,1.146693279756745e-02
+9.347618003347813e+01,1.144215498980086e-02
+9.472023921270083e+01,1.141681580665025e-02
+9.598085537190339e+01,1.139090424159100e-02
+9.725824886522220e+01,1.136440940088292e-02
+9.855264297945068e+01,1.133732008442961e-02
+9.986426397306994e+01,1.130962506789682e-02
+1.011933411157979e+02,1.128131289180017e-02
+1.025401067286656e+02,1.125237217608026e-02
+1.039047962246269e+02,1.122279130584174e-02
+1.052876481497079e+02,1.119255862196701e-02
+1.066889042247047e+02,1.116166228762850e-02
+1.081088093874363e+02,1.113009050780651e-02
+1.095476118355584e+02,1.109783136747695e-02
+1.110055630699492e+02,1.106487279415577e-02
+1.124829179386708e+02,1.103120281551363e-02
+1.139799346815163e+02,1.099680940577061e-02
+1.154968749751500e+02,1.096167986959605e-02
+1.170340039788482e+02,1.092580259814397e-02
+1.185915903808484e+02,1.088916518523458e-02
+1.201699064453161e+02,1.085175551576428e-02
+1.217692280599359e+02,1.081356104542571e-02
+1.233898347841363e+02,1.077456963591241e-02
+1.250320098979566e+02,1.073476958592557e-02
+1.266960404515641e+02,1.069414828474887e-02
+1.283822173154292e+02,1.065269363277557e-02
+1.300908352311701e+02,1.061039394562602e-02
+1.318221928630729e+02,1.056723691937106e-02
+1.335765928502979e+02,1.052321115804355e-02
+1.353543418597802e+02,1.047830475620013e-02
+1.371557506398351e+02,1.043250610887645e-02
+1.389811340744765e+02,1.038580454586064e-02
+1.408308112384579e+02,1.033818827256206e-02
+1.427051054530463e+02,1.028964738509783e-02
+1.446043443425390e+02,1.024016916355878e-02
+1.465288598915311e+02,1.018974533865046e-02
+1.484789885029464e+02,1.013836527126835e-02
+1.504550710568402e+02,1.008601941501505e-02
+1.524574529699846e+02,1.003269801851149e-02
+1.544864842562470e+02,9.978392853609668e-03
+1.565425195877721e+02,9.923095205819299e-03
+1.586259183569780e+02,9.866797401913294e-03
+1.607370447393776e+02,3.332963766289321e-03
+1.628762677572367e+02,3.274645517732036e-03
+1.650439613440772e+02,3.215303853383142e-03
+1.672405044100416e+02,3.154937866518592e-03
+1.694662809081252e+02,3.093541450250470e-03
+1.717216799012910e+02,3.031110685219864e-03
+1.740070956304771e+02,2.967642611568582e-03
+1.763229275835099e+02,2.903135281169300e-03
+1.786695805649339e+02,2.837587038754032e-03
+1.810474647667706e+02,2.770998480756987e-03
+1.834569958402209e+02,2.703370388299912e-03
+1.858985949683187e+02,2.634705154153129e-03
+1.883726889395541e+02,2.565006239069808e-03
+1.908797102224754e+02,2.494278655480342e-03
+1.934200970412841e+02,2.422528400703921e-03
+1.959942934524359e+02,2.349764308014883e-03
+1.986027494222610e+02,2.275995120718887e-03
+2.012459209056179e+02,2.201235734352374e-03
+2.039242699255936e+02,2.125489553608748e-03
+2.066382646542653e+02,2.048780754237388e-03
+2.093883794945350e+02,1.971124243032652e-03
+2.121750951630555e+02,1.892539009411321e-03
+2.149988987742591e+02,1.813061126188820e-03
+2.178602839255040e+02,1.734071458900149e-03
+2.207597507833550e+02,1.656488619281408e-03
+2.236978061710120e+02,1.580337971226858e-03
+2.266749636569015e+02,1.505645312894439e-03
+2.296917436444483e+02,1.432436582036153e-03
+2.327486734630417e+02,1.360737818090789e-03
+2.358462874602108e+02,1.290575046014084e-03
+2.389851270950289e+02,1.221974696405451e-03
+2.421657410327593e+02,1.154963626876744e-03
+2.453886852407615e+02,1.089567115591418e-03
+2.486545230856737e+02,1.025812909752070e-03
+2.519638254318884e+02,9.637274839111820e-04
+2.553171707413388e+02,9.033366417414978e-04
+2.587151451746132e+02,8.446677859699373e-04
+2.621583426934157e+02,7.877471549409290e-04
+2.656473651643890e+02,7.326012792836349e-04
+2.691828224643207e+02,6.792563419844608e-04
+2.727653325867484e+02,6.277386921352235e-04
+2.763955217499849e+02,5.780743219328085e-04
+2.800740245065799e+02,5.302888389832695e-04
+2.838014838542390e+02,4.844078929866436e-04
+2.875785513482192e+02,4.404565925416513e-04
+2.914058872152196e+02,3.984597517178354e-04
+2.952841604687882e+02,3.584416767305405e-04
+2.992140490262656e+02,3.204263386565722e-04
+3.031962398272825e+02,2.844371163725242e-04
+3.072314289538370e+02,2.504964607419015e-04
+3.113203217519684e+02,2.186269128708949e-04
+3.154636329550513e+02,1.888496150773445e-04
+3.196620868087295e+02,1.611849057655131e-04
+3.239164171975137e+02,1.356526945410259e-04
+3.282273677730632e+02,1.122715991217410e-04
+3.325956920841755e+02,9.105926018730147e-05
+3.370221537085065e+02,7.203167533495848e-05
+3.415075263860411e+02,5.520532513230958e-05
+3.460525941543435e+02,4.059289813669308e-05
+3.506581514856054e+02,2.820730156048160e-05
 3.553250034255188e+02,0.000000000000000e+00
 3.600539657339972e+02,0.000000000000000e+00
 3.648458650277690e+02,0.000000000000000e+00
diff --git a/hazma/spectra/_neutrino/data/neutral_rho_neutrino_e.csv b/hazma/spectra/_neutrino/data/neutral_rho_neutrino_e.csv
index 90dfc3b..72db01f 100644
--- a/hazma/spectra/_neutrino/data/neutral_rho_neutrino_e.csv
+++ b/hazma/spectra/_neutrino/data/neutral_rho_neutrino_e.csv
@@ -1,501 +1,501 @@
-# energy,pi_pi0
-5.109989461000004e-01,5.906322292349380e-05
-5.177997474297205e-01,6.061489051075854e-05
-5.246910595111344e-01,6.220688370572892e-05
-5.316740869370211e-01,6.384023240868129e-05
-5.387500503318877e-01,6.551599206791672e-05
-5.459201865653328e-01,6.723524428145496e-05
-5.531857489682500e-01,6.899909741149800e-05
-5.605480075519090e-01,7.080868721186978e-05
-5.680082492299514e-01,7.266517746863882e-05
-5.755677780433416e-01,7.456976065412984e-05
-5.832279153883121e-01,7.652365859453083e-05
-5.909900002473413e-01,7.852812315130022e-05
-5.988553894232063e-01,8.058443691657933e-05
-6.068254577761502e-01,8.269391392281226e-05
-6.149015984642063e-01,8.485790036677631e-05
-6.230852231867199e-01,8.707777534822081e-05
-6.313777624311118e-01,8.935495162331395e-05
-6.397806657229257e-01,9.169087637309132e-05
-6.482954018792038e-01,9.408703198709885e-05
-6.569234592652334e-01,9.654493686241890e-05
-6.656663460547122e-01,9.906614621826441e-05
-6.745255904933746e-01,1.016522529263222e-04
-6.835027411661272e-01,1.043048883570210e-04
-6.925993672677400e-01,1.070257232418953e-04
-7.018170588771390e-01,1.098164685522105e-04
-7.111574272353504e-01,1.126788763940074e-04
-7.206221050271436e-01,1.156147409197182e-04
-7.302127466664224e-01,1.186258992564977e-04
-7.399310285854144e-01,1.217142324514066e-04
-7.497786495277088e-01,1.248816664335726e-04
-7.597573308451960e-01,1.281301729934477e-04
-7.698688167989565e-01,1.314617707792672e-04
-7.801148748641560e-01,1.348785263108063e-04
-7.904972960389978e-01,1.383825550105177e-04
-8.010178951577874e-01,1.419760222521188e-04
-8.116785112081629e-01,1.456611444266870e-04
-8.224810076525477e-01,1.494401900262991e-04
-8.334272727538817e-01,1.533154807452446e-04
-8.445192199056873e-01,1.572893925988154e-04
-8.557587879665278e-01,1.613643570596620e-04
-8.671479415989179e-01,1.655428622116864e-04
-8.786886716127443e-01,1.698274539214149e-04
-8.903829953132563e-01,1.742207370267799e-04
-9.022329568536888e-01,1.787253765432097e-04
-9.142406275925772e-01,1.833440988868999e-04
-9.264081064558289e-01,1.880796931151182e-04
-9.387375203036126e-01,1.929350121833585e-04
-9.512310243021307e-01,1.979129742191348e-04
-9.638908023003399e-01,2.030165638121707e-04
-9.767190672116851e-01,2.082488333207056e-04
-9.897180614009142e-01,2.136129041936039e-04
-1.002890057076040e+00,2.191119683079123e-04
-1.016237356685521e+00,2.247492893214730e-04
-1.029762293320725e+00,2.305282040401534e-04
-1.043467231123748e+00,2.364521237992089e-04
-1.057354565700671e+00,2.425245358582498e-04
-1.071426724540301e+00,2.487490048092251e-04
-1.085686167438497e+00,2.551291739967910e-04
-1.100135386928138e+00,2.616687669503672e-04
-1.114776908714817e+00,2.683715888271296e-04
-1.129613292118326e+00,2.752415278651202e-04
-1.144647130520029e+00,2.822825568455915e-04
-1.159881051816175e+00,2.894987345636320e-04
-1.175317718877255e+00,2.968942073060427e-04
-1.190959830013468e+00,3.044732103353574e-04
-1.206810119446381e+00,3.122400693788219e-04
-1.222871357786870e+00,3.201992021210503e-04
-1.239146352519414e+00,3.283551196989981e-04
-1.255637948492848e+00,3.367124281977841e-04
-1.272349028417632e+00,3.452758301458022e-04
-1.289282513369746e+00,3.540501260074490e-04
-1.306441363301295e+00,3.630402156716909e-04
-1.323828577557901e+00,3.722510999345681e-04
-1.341447195402987e+00,3.816878819736169e-04
-1.359300296549032e+00,3.913557688120581e-04
-1.377391001695908e+00,4.012600727704655e-04
-1.395722473076369e+00,4.114062129034848e-04
-1.414297915008808e+00,4.217997164190237e-04
-1.433120574457365e+00,4.324462200771761e-04
-1.452193741599497e+00,4.433514715659810e-04
-1.471520750401093e+00,4.545213308509377e-04
-1.491104979199248e+00,4.659617714950259e-04
-1.510949851292792e+00,4.776788819457771e-04
-1.531058835540680e+00,4.896788667857603e-04
-1.551435446968342e+00,5.019680479426128e-04
-1.572083247382108e+00,5.145528658545525e-04
-1.593005845991801e+00,5.274398805870579e-04
-1.614206900041632e+00,5.406357728961715e-04
-1.635690115449474e+00,5.541473452336225e-04
-1.657459247454654e+00,5.679815226887074e-04
-1.679518101274365e+00,5.821453538615848e-04
-1.701870532768813e+00,5.966460116623457e-04
-1.724520449115217e+00,6.114907940299286e-04
-1.747471809490776e+00,6.266871245646128e-04
-1.770728625764733e+00,6.422425530675100e-04
-1.794294963199639e+00,6.581647559800988e-04
-1.818174941161962e+00,6.744615367165107e-04
-1.842372733842141e+00,6.911408258808639e-04
-1.866892570984235e+00,7.082106813615635e-04
-1.891738738625272e+00,7.256792882940539e-04
-1.916915579844447e+00,7.435549588830713e-04
-1.942427495522285e+00,7.618461320749942e-04
-1.968278945109908e+00,7.805613730703947e-04
-1.994474447408545e+00,7.997093726664082e-04
-2.021018581359408e+00,8.192989464179925e-04
-2.047915986844093e+00,8.393390336066205e-04
-2.075171365495615e+00,8.598386960043564e-04
-2.102789481520257e+00,8.808071164206756e-04
-2.130775162530341e+00,9.022535970187571e-04
-2.159133300388095e+00,9.241875573873158e-04
-2.187868852060737e+00,9.466185323533661e-04
-2.216986840486952e+00,9.695561695205710e-04
-2.246492355454893e+00,9.930102265171116e-04
-2.276390554491870e+00,1.016990567936188e-03
-2.306686663765882e+00,1.041507161951475e-03
-2.337385978999140e+00,1.066570076588997e-03
-2.368493866393755e+00,1.092189475635957e-03
-2.400015763569748e+00,1.118375614166171e-03
-2.431957180515527e+00,1.145138833660754e-03
-2.464323700551041e+00,1.172489556701668e-03
-2.497120981303727e+00,1.200438281214716e-03
-2.530354755697458e+00,1.228995574237424e-03
-2.564030832954658e+00,1.258172065186103e-03
-2.598155099611733e+00,1.287978438595154e-03
-2.632733520548046e+00,1.318425426300430e-03
-2.667772140028560e+00,1.349523799037145e-03
-2.703277082760371e+00,1.381284357421402e-03
-2.739254554963299e+00,1.413717922283026e-03
-2.775710845454729e+00,1.446835324315836e-03
-2.812652326748886e+00,1.480647393009912e-03
-2.850085456170743e+00,1.515164944828842e-03
-2.888016776984756e+00,1.550398770593101e-03
-2.926452919538616e+00,1.586359622029037e-03
-2.965400602422225e+00,1.623058197441012e-03
-3.004866633642099e+00,1.660505126462296e-03
-3.044857911811400e+00,1.698710953838302e-03
-3.085381427355800e+00,1.737686122193604e-03
-3.126444263735405e+00,1.777440953731999e-03
-3.168053598682930e+00,1.817985630816487e-03
-3.210216705458361e+00,1.859330175373733e-03
-3.252940954120311e+00,1.901484427064969e-03
-3.296233812814295e+00,1.944458020162713e-03
-3.340102849078156e+00,1.988260359069934e-03
-3.384555731164858e+00,2.032900592415413e-03
-3.429600229382890e+00,2.078387585656110e-03
-3.475244217454503e+00,2.124729892114176e-03
-3.521495673892030e+00,2.171935722373063e-03
-3.568362683392519e+00,2.220012911953765e-03
-3.615853438250924e+00,2.268968887188671e-03
-3.663976239792119e+00,2.318810629206908e-03
-3.712739499821943e+00,2.369544635941104e-03
-3.762151742097590e+00,2.421176882061585e-03
-3.812221603817538e+00,2.473712776739779e-03
-3.862957837131326e+00,2.527157119138285e-03
-3.914369310669422e+00,2.581514051520489e-03
-3.966465011093442e+00,2.636787009867903e-03
-4.019254044667013e+00,2.692978671888411e-03
-4.072745638847532e+00,2.750090902293525e-03
-4.126949143899116e+00,2.808124695217312e-03
-4.181874034527019e+00,2.867080113644093e-03
-4.237529911533794e+00,2.926956225706176e-03
-4.293926503497504e+00,2.987751037706747e-03
-4.351073668472265e+00,3.049461423716777e-03
-4.408981395711423e+00,3.112083051588127e-03
-4.467659807413660e+00,3.175610305218109e-03
-4.527119160492345e+00,3.240036202893673e-03
-4.587369848368424e+00,3.305352311535771e-03
-4.648422402787189e+00,3.371548656656737e-03
-4.710287495659198e+00,3.438613627835270e-03
-4.772975940925726e+00,3.506533879505264e-03
-4.836498696449016e+00,3.575294226845690e-03
-4.900866865927711e+00,3.644877536549693e-03
-4.966091700837762e+00,3.715264612241334e-03
-5.032184602399166e+00,3.786434074298415e-03
-5.099157123568898e+00,3.858362233829443e-03
-5.167020971060342e+00,3.931022960541764e-03
-5.235788007389615e+00,4.004387544226756e-03
-5.305470252949116e+00,4.078424549575948e-03
-5.376079888108687e+00,4.153099664029760e-03
-5.447629255344713e+00,4.228375538347626e-03
-5.520130861397575e+00,4.304211619574983e-03
-5.593597379457817e+00,4.380563976068567e-03
-5.668041651381405e+00,4.457385114227016e-03
-5.743476689934459e+00,4.534623786558589e-03
-5.819915681067875e+00,4.612224790702079e-03
-5.897371986222209e+00,4.690128759000571e-03
-5.975859144663244e+00,4.768271938210529e-03
-6.055390875848640e+00,4.846585958910927e-03
-6.135981081826065e+00,4.924997594158481e-03
-6.217643849663268e+00,5.003428506915775e-03
-6.300393453910474e+00,5.081794985758809e-03
-6.384244359095568e+00,5.160007668349559e-03
-6.469211222252461e+00,5.237971252137145e-03
-6.555308895483131e+00,5.315584191728601e-03
-6.642552428553752e+00,5.392738382346213e-03
-6.730957071525366e+00,5.469318828763929e-03
-6.820538277419596e+00,5.545203299089385e-03
-6.911311704919786e+00,5.620261962731388e-03
-7.003293221108139e+00,5.694357011864895e-03
-7.096498904239253e+00,5.767342265676620e-03
-7.190945046550597e+00,5.839062756645334e-03
-7.286648157110350e+00,5.909354298083334e-03
-7.383624964703179e+00,5.978043032160034e-03
-7.481892420754412e+00,6.044946072669226e-03
-7.581467702293113e+00,6.109937186577233e-03
-7.682368214954630e+00,6.172991571179321e-03
-7.784611596023049e+00,6.234094118659897e-03
-7.888215717514186e+00,6.293230777471208e-03
-7.993198689299590e+00,6.350388812093814e-03
-8.099578862272134e+00,6.405556735171507e-03
-8.207374831553709e+00,6.458724385204730e-03
-8.316605439745645e+00,6.509883025002946e-03
-8.427289780222369e+00,6.559025778737430e-03
-8.539447200468897e+00,6.606147053657050e-03
-8.653097305462770e+00,6.651243258287559e-03
-8.768259961100952e+00,6.694388136109309e-03
-8.884955297672384e+00,6.735356539702071e-03
-9.003203713376728e+00,6.774376725809979e-03
-9.123025877889937e+00,6.811378642592674e-03
-9.244442735977316e+00,6.846369870384825e-03
-9.367475511154611e+00,6.879360743373603e-03
-9.492145709397864e+00,6.910364358718541e-03
-9.618475122902632e+00,6.939397309975990e-03
-9.746485833893246e+00,6.966478712598761e-03
-9.876200218482735e+00,6.991631682529890e-03
-1.000764095058416e+01,7.014882907053935e-03
-1.014083100587397e+01,7.036262715571368e-03
-1.027579366580813e+01,7.055806188420059e-03
-1.041255252169172e+01,7.073551153552313e-03
-1.055113147880261e+01,7.089542264780609e-03
-1.069155476057010e+01,7.103827650581275e-03
-1.083384691280916e+01,7.116460874672569e-03
-1.097803280801099e+01,7.127501033856338e-03
-1.112413764969068e+01,7.137012973471139e-03
-1.127218697679282e+01,7.145067566600620e-03
-1.142220666815559e+01,7.151742183528991e-03
-1.157422294703442e+01,7.157120931220757e-03
-1.172826238568576e+01,7.161295184913703e-03
-1.188435191001184e+01,7.164363568373683e-03
-1.204251880426734e+01,7.166433069332219e-03
-1.220279071582860e+01,7.167618697192886e-03
-1.236519566002640e+01,7.168044491106485e-03
-1.252976202504293e+01,7.167843662793271e-03
-1.269651857687408e+01,7.167159615795296e-03
-1.286549446435766e+01,7.166145130686329e-03
-1.303671922426858e+01,7.165644845692340e-03
-1.321022278648188e+01,7.164419001354939e-03
-1.338603547920439e+01,7.163161296078539e-03
-1.356418803427607e+01,7.161870670873968e-03
-1.374471159254193e+01,7.160546465389256e-03
-1.392763770929538e+01,7.159187785239433e-03
-1.411299835979406e+01,7.157793774098683e-03
-1.430082594484909e+01,7.156363171133204e-03
-1.449115329648866e+01,7.154895756204600e-03
-1.468401368369706e+01,7.153389853831005e-03
-1.487944081823007e+01,7.151844891536252e-03
-1.507746886050769e+01,7.150259793827155e-03
-1.527813242558536e+01,7.148655824337173e-03
-1.548146658920460e+01,7.146965005839952e-03
-1.568750689392428e+01,7.145253146240060e-03
-1.589628935533334e+01,7.143496887119133e-03
-1.610785046834630e+01,7.141695103643420e-03
-1.632222721358253e+01,7.139847913451454e-03
-1.653945706383039e+01,7.137950186477522e-03
-1.675957799059750e+01,7.136004723327005e-03
-1.698262847074799e+01,7.134008828886364e-03
-1.720864749322833e+01,7.131961258059509e-03
-1.743767456588247e+01,7.129860891853123e-03
-1.766974972235779e+01,7.127706173120760e-03
-1.790491352910293e+01,7.125495728985964e-03
-1.814320709245877e+01,7.123228332873888e-03
-1.838467206584373e+01,7.120902368954169e-03
-1.862935065703476e+01,7.118516218511725e-03
-1.887728563554524e+01,7.116068990864615e-03
-1.912852034010097e+01,7.113558529379613e-03
-1.938309868621575e+01,7.110983400099916e-03
-1.964106517386779e+01,7.108341974661209e-03
-1.990246489527821e+01,7.105632740562373e-03
-2.016734354279313e+01,7.102853781269561e-03
-2.043574741687061e+01,7.100003536560391e-03
-2.070772343417394e+01,7.097080035893754e-03
-2.098331913577260e+01,7.094081616633358e-03
-2.126258269545236e+01,7.091006287979457e-03
-2.154556292813609e+01,7.087851934603549e-03
-2.183230929841639e+01,7.084617376442646e-03
-2.212287192920208e+01,7.081299749337228e-03
-2.241730161047954e+01,7.077897342339966e-03
-2.271564980819080e+01,7.074408066736223e-03
-2.301796867322965e+01,7.070829577548561e-03
-2.332431105055760e+01,7.067160110076475e-03
-2.363473048844113e+01,7.063396913163072e-03
-2.394928124781178e+01,7.059537456884615e-03
-2.426801831175101e+01,7.055580058790412e-03
-2.459099739510108e+01,7.051522043970570e-03
-2.491827495420394e+01,7.047360873128503e-03
-2.524990819676981e+01,7.043093927119342e-03
-2.558595509187690e+01,7.038718883653703e-03
-2.592647438010444e+01,7.034232912815170e-03
-2.627152558380039e+01,7.029633237122648e-03
-2.662116901748591e+01,7.024916965004217e-03
-2.697546579839821e+01,7.020081805290196e-03
-2.733447785717389e+01,7.015125025578037e-03
-2.769826794867418e+01,7.010041783907467e-03
-2.806689966295452e+01,7.004830790256199e-03
-2.844043743637996e+01,6.999488417352812e-03
-2.881894656288861e+01,6.994011943765693e-03
-2.920249320540491e+01,6.988397586609730e-03
-2.959114440740484e+01,6.982642148585298e-03
-2.998496810463500e+01,6.976742276574136e-03
-3.038403313698771e+01,6.970694427321249e-03
-3.078840926053425e+01,6.964495067243225e-03
-3.119816715971793e+01,6.958140656123041e-03
-3.161337845970976e+01,6.951627379709904e-03
-3.203411573892846e+01,6.944951498551281e-03
-3.246045254172703e+01,6.938109071575818e-03
-3.289246339124822e+01,6.931096164410141e-03
-3.333022380245109e+01,6.923908823196823e-03
-3.377381029531094e+01,6.916542799090169e-03
-3.422330040819485e+01,6.908993897012912e-03
-3.467877271141543e+01,6.901257861285683e-03
-3.514030682096466e+01,6.893330727597762e-03
-3.560798341243070e+01,6.885206616941843e-03
-3.608188423509995e+01,6.876882021423735e-03
-3.656209212624666e+01,6.868352195953747e-03
-3.704869102561282e+01,6.859612313856838e-03
-3.754176599008069e+01,6.850657380925251e-03
-3.804140320854066e+01,6.841482354502056e-03
-3.854769001695692e+01,6.832082213435938e-03
-3.906071491363382e+01,6.822451650433139e-03
-3.958056757468505e+01,6.812585786002777e-03
-4.010733886970904e+01,6.802478730727923e-03
-4.064112087767285e+01,6.792125212764700e-03
-4.118200690300744e+01,6.781519452221042e-03
-4.173009149191716e+01,6.770655851149222e-03
-4.228547044890630e+01,6.759528492476807e-03
-4.284824085352565e+01,6.748131497599747e-03
-4.341850107734180e+01,6.736458743440838e-03
-4.399635080113253e+01,6.724503951359103e-03
-4.458189103231066e+01,6.712260960936917e-03
-4.517522412258016e+01,6.699723222840498e-03
-4.577645378582711e+01,6.686884377390290e-03
-4.638568511624867e+01,6.673737317558604e-03
-4.700302460672353e+01,6.660275654550378e-03
-4.762858016742661e+01,6.646492884122820e-03
-4.826246114469173e+01,6.632381177624613e-03
-4.890477834012515e+01,6.617933648419191e-03
-4.955564402997351e+01,6.603143015168338e-03
-5.021517198474982e+01,6.588001857188793e-03
-5.088347748912003e+01,6.572502700967009e-03
-5.156067736205493e+01,6.556637728639684e-03
-5.224688997724986e+01,6.540399399717109e-03
-5.294223528381627e+01,6.523779726250013e-03
-5.364683482724874e+01,6.506770583239587e-03
-5.436081177067085e+01,6.489363769088516e-03
-5.508429091636422e+01,6.471550920916694e-03
-5.581739872758344e+01,6.453323776044672e-03
-5.656026335066189e+01,6.434673198535489e-03
-5.731301463741156e+01,6.415592067187853e-03
-5.807578416782092e+01,6.396070002517185e-03
-5.884870527305498e+01,6.376098599227593e-03
-5.963191305876141e+01,6.355668799068514e-03
-6.042554442868680e+01,6.334771364932302e-03
-6.122973810860727e+01,6.313397128770488e-03
-6.204463467057775e+01,6.291536563005857e-03
-6.287037655750346e+01,6.269180191275266e-03
-6.370710810803898e+01,6.246318335604994e-03
-6.455497558181844e+01,6.222941090014278e-03
-6.541412718502147e+01,6.199039032717173e-03
-6.628471309627953e+01,6.174602223790899e-03
-6.716688549292685e+01,6.149619322134735e-03
-6.806079857760092e+01,6.124081628071409e-03
-6.896660860519684e+01,6.097978362087857e-03
-6.988447391018070e+01,6.071299072174460e-03
-7.081455493426590e+01,6.044033443634769e-03
-7.175701425445840e+01,6.016171031859487e-03
-7.271201661147492e+01,5.987701054763297e-03
-7.367972893853944e+01,5.958612984578770e-03
-7.466032039056286e+01,5.928896110986307e-03
-7.565396237371111e+01,5.898539665394590e-03
-7.666082857536672e+01,5.867532845098952e-03
-7.768109499448909e+01,5.835864547457856e-03
-7.871493997237923e+01,5.803524753606076e-03
-7.976254422385303e+01,5.770501745951478e-03
-8.082409086883041e+01,5.736784926949084e-03
-8.189976546434434e+01,5.702363482457185e-03
-8.298975603697592e+01,5.667226544045511e-03
-8.409425311572129e+01,5.631363196555352e-03
-8.521344976529578e+01,5.594763069783428e-03
-8.634754161988141e+01,5.557414973685133e-03
-8.749672691732347e+01,5.519308639959775e-03
-8.866120653378248e+01,5.480433394843254e-03
-8.984118401884668e+01,5.440778904592452e-03
-9.103686563111253e+01,5.400334874021018e-03
-9.224846037423841e+01,5.359091198948412e-03
-9.347618003347813e+01,5.317038001100681e-03
-9.472023921270083e+01,5.274165528116419e-03
-9.598085537190339e+01,5.230464188027114e-03
-9.725824886522220e+01,5.185924798490898e-03
-9.855264297945068e+01,5.140538353942484e-03
-9.986426397306994e+01,5.094296167501099e-03
-1.011933411157979e+02,5.047189877993566e-03
-1.025401067286656e+02,4.999211563798703e-03
-1.039047962246269e+02,4.950353541157795e-03
-1.052876481497079e+02,4.900608636481960e-03
-1.066889042247047e+02,4.849970376080224e-03
-1.081088093874363e+02,4.798432458176559e-03
-1.095476118355584e+02,4.745989263676231e-03
-1.110055630699492e+02,4.692635979478962e-03
-1.124829179386708e+02,4.638367788822922e-03
-1.139799346815163e+02,4.583181450087446e-03
-1.154968749751500e+02,4.527074022057044e-03
-1.170340039788482e+02,4.470043070679745e-03
-1.185915903808484e+02,4.412087996580194e-03
-1.201699064453161e+02,4.353207104939228e-03
-1.217692280599359e+02,4.293402300513302e-03
-1.233898347841363e+02,4.232674799740365e-03
-1.250320098979566e+02,4.171027416828587e-03
-1.266960404515641e+02,4.108464100367749e-03
-1.283822173154292e+02,4.044990085813847e-03
-1.300908352311701e+02,3.980611931478853e-03
-1.318221928630729e+02,3.915337714064522e-03
-1.335765928502979e+02,3.849176849482180e-03
-1.353543418597802e+02,3.782140554526391e-03
-1.371557506398351e+02,3.714241609946106e-03
-1.389811340744765e+02,3.645494820558586e-03
-1.408308112384579e+02,3.575916637771584e-03
-1.427051054530463e+02,3.505525629469072e-03
-1.446043443425390e+02,3.434342777612304e-03
-1.465288598915311e+02,3.362390921734289e-03
-1.484789885029464e+02,3.289695450679739e-03
-1.504550710568402e+02,3.216284860498423e-03
-1.524574529699846e+02,3.142190079754751e-03
-1.544864842562470e+02,3.067442595960425e-03
-1.565425195877721e+02,2.992081111029922e-03
-1.586259183569780e+02,2.916144628411276e-03
-1.607370447393776e+02,2.839676132375729e-03
-1.628762677572367e+02,2.762722186069321e-03
-1.650439613440772e+02,2.685333077249483e-03
-1.672405044100416e+02,2.607562965792406e-03
-1.694662809081252e+02,2.529469621073046e-03
-1.717216799012910e+02,2.451117015419544e-03
-1.740070956304771e+02,2.372570912024909e-03
-1.763229275835099e+02,2.293903925308182e-03
-1.786695805649339e+02,2.215192833036718e-03
-1.810474647667706e+02,2.136520092550733e-03
-1.834569958402209e+02,2.057973583927677e-03
-1.858985949683187e+02,1.979647069178019e-03
-1.883726889395541e+02,1.901640519844120e-03
-1.908797102224754e+02,1.824060402585045e-03
-1.934200970412841e+02,1.747019868502549e-03
-1.959942934524359e+02,1.670639392515605e-03
-1.986027494222610e+02,1.595046860819227e-03
-2.012459209056179e+02,1.520378151098708e-03
-2.039242699255936e+02,1.446777181649606e-03
-2.066382646542653e+02,1.374396845182964e-03
-2.093883794945350e+02,1.303398890247220e-03
-2.121750951630555e+02,1.233955075625846e-03
-2.149988987742591e+02,1.166246516874317e-03
-2.178602839255040e+02,1.100423754725297e-03
-2.207597507833550e+02,1.036523547051881e-03
-2.236978061710120e+02,9.745609747587776e-04
-2.266749636569015e+02,9.145496993970766e-04
-2.296917436444483e+02,8.565027435986652e-04
-2.327486734630417e+02,8.004314945924681e-04
-2.358462874602108e+02,7.463461147650462e-04
-2.389851270950289e+02,6.942552632926310e-04
-2.421657410327593e+02,6.441660640514617e-04
-2.453886852407615e+02,5.960839112289988e-04
-2.486545230856737e+02,5.500125024592681e-04
-2.519638254318884e+02,5.059534503511166e-04
-2.553171707413388e+02,4.639064005616280e-04
-2.587151451746132e+02,4.238687692401765e-04
-2.621583426934157e+02,3.858355854739929e-04
-2.656473651643890e+02,3.497994838262677e-04
-2.691828224643207e+02,3.157502559917995e-04
-2.727653325867484e+02,2.836749566786239e-04
-2.763955217499849e+02,2.535575850098226e-04
-2.800740245065799e+02,2.253789392140678e-04
-2.838014838542390e+02,1.991163566090282e-04
-2.875785513482192e+02,1.747436063263091e-04
-2.914058872152196e+02,1.522306508004647e-04
-2.952841604687882e+02,1.315432356870308e-04
-2.992140490262656e+02,1.126429131048372e-04
-3.031962398272825e+02,9.548662425713702e-05
-3.072314289538370e+02,8.002650471140117e-05
-3.113203217519684e+02,6.620946342935848e-05
-3.154636329550513e+02,5.397733822906788e-05
-3.196620868087295e+02,4.326580751314617e-05
-3.239164171975137e+02,3.400480752194834e-05
-3.282273677730632e+02,2.611782381847667e-05
-3.325956920841755e+02,1.952165271230611e-05
-3.370221537085065e+02,1.412599818592687e-05
-3.415075263860411e+02,9.833047654432969e-06
-3.460525941543435e+02,6.537195096569775e-06
-3.506581514856054e+02,4.124448022100040e-06
-3.553250034255188e+02,6.802601632572620e-07
-3.600539657339972e+02,6.802601632572620e-07
-3.648458650277690e+02,6.802601632572620e-07
-3.697015389248697e+02,6.802601632572620e-07
-3.746218361910555e+02,6.802601632572620e-07
+# energy,pi_pi
+5.109989461000004e-01,1.181264458469876e-04
+5.177997474297205e-01,1.212297810215171e-04
+5.246910595111344e-01,1.244137674114578e-04
+5.316740869370211e-01,1.276804648173626e-04
+5.387500503318877e-01,1.310319841358334e-04
+5.459201865653328e-01,1.344704885629099e-04
+5.531857489682500e-01,1.379981948229960e-04
+5.605480075519090e-01,1.416173744237396e-04
+5.680082492299514e-01,1.453303549372776e-04
+5.755677780433416e-01,1.491395213082597e-04
+5.832279153883121e-01,1.530473171890617e-04
+5.909900002473413e-01,1.570562463026004e-04
+5.988553894232063e-01,1.611688738331587e-04
+6.068254577761502e-01,1.653878278456245e-04
+6.149015984642063e-01,1.697158007335526e-04
+6.230852231867199e-01,1.741555506964416e-04
+6.313777624311118e-01,1.787099032466279e-04
+6.397806657229257e-01,1.833817527461826e-04
+6.482954018792038e-01,1.881740639741977e-04
+6.569234592652334e-01,1.930898737248378e-04
+6.656663460547122e-01,1.981322924365288e-04
+6.745255904933746e-01,2.033045058526444e-04
+6.835027411661272e-01,2.086097767140419e-04
+6.925993672677400e-01,2.140514464837905e-04
+7.018170588771390e-01,2.196329371044210e-04
+7.111574272353504e-01,2.253577527880149e-04
+7.206221050271436e-01,2.312294818394364e-04
+7.302127466664224e-01,2.372517985129954e-04
+7.399310285854144e-01,2.434284649028131e-04
+7.497786495277088e-01,2.497633328671452e-04
+7.597573308451960e-01,2.562603459868954e-04
+7.698688167989565e-01,2.629235415585345e-04
+7.801148748641560e-01,2.697570526216127e-04
+7.904972960389978e-01,2.767651100210353e-04
+8.010178951577874e-01,2.839520445042377e-04
+8.116785112081629e-01,2.913222888533739e-04
+8.224810076525477e-01,2.988803800525982e-04
+8.334272727538817e-01,3.066309614904892e-04
+8.445192199056873e-01,3.145787851976307e-04
+8.557587879665278e-01,3.227287141193239e-04
+8.671479415989179e-01,3.310857244233727e-04
+8.786886716127443e-01,3.396549078428298e-04
+8.903829953132563e-01,3.484414740535599e-04
+9.022329568536888e-01,3.574507530864195e-04
+9.142406275925772e-01,3.666881977737999e-04
+9.264081064558289e-01,3.761593862302364e-04
+9.387375203036126e-01,3.858700243667170e-04
+9.512310243021307e-01,3.958259484382696e-04
+9.638908023003399e-01,4.060331276243414e-04
+9.767190672116851e-01,4.164976666414113e-04
+9.897180614009142e-01,4.272258083872077e-04
+1.002890057076040e+00,4.382239366158245e-04
+1.016237356685521e+00,4.494985786429460e-04
+1.029762293320725e+00,4.610564080803068e-04
+1.043467231123748e+00,4.729042475984178e-04
+1.057354565700671e+00,4.850490717164997e-04
+1.071426724540301e+00,4.974980096184501e-04
+1.085686167438497e+00,5.102583479935820e-04
+1.100135386928138e+00,5.233375339007344e-04
+1.114776908714817e+00,5.367431776542591e-04
+1.129613292118326e+00,5.504830557302403e-04
+1.144647130520029e+00,5.645651136911829e-04
+1.159881051816175e+00,5.789974691272640e-04
+1.175317718877255e+00,5.937884146120854e-04
+1.190959830013468e+00,6.089464206707148e-04
+1.206810119446381e+00,6.244801387576438e-04
+1.222871357786870e+00,6.403984042421007e-04
+1.239146352519414e+00,6.567102393979961e-04
+1.255637948492848e+00,6.734248563955681e-04
+1.272349028417632e+00,6.905516602916045e-04
+1.289282513369746e+00,7.081002520148979e-04
+1.306441363301295e+00,7.260804313433818e-04
+1.323828577557901e+00,7.445021998691363e-04
+1.341447195402987e+00,7.633757639472339e-04
+1.359300296549032e+00,7.827115376241163e-04
+1.377391001695908e+00,8.025201455409310e-04
+1.395722473076369e+00,8.228124258069696e-04
+1.414297915008808e+00,8.435994328380474e-04
+1.433120574457365e+00,8.648924401543522e-04
+1.452193741599497e+00,8.867029431319620e-04
+1.471520750401093e+00,9.090426617018755e-04
+1.491104979199248e+00,9.319235429900519e-04
+1.510949851292792e+00,9.553577638915543e-04
+1.531058835540680e+00,9.793577335715205e-04
+1.551435446968342e+00,1.003936095885226e-03
+1.572083247382108e+00,1.029105731709105e-03
+1.593005845991801e+00,1.054879761174116e-03
+1.614206900041632e+00,1.081271545792343e-03
+1.635690115449474e+00,1.108294690467245e-03
+1.657459247454654e+00,1.135963045377415e-03
+1.679518101274365e+00,1.164290707723170e-03
+1.701870532768813e+00,1.193292023324691e-03
+1.724520449115217e+00,1.222981588059857e-03
+1.747471809490776e+00,1.253374249129226e-03
+1.770728625764733e+00,1.284485106135020e-03
+1.794294963199639e+00,1.316329511960198e-03
+1.818174941161962e+00,1.348923073433021e-03
+1.842372733842141e+00,1.382281651761728e-03
+1.866892570984235e+00,1.416421362723127e-03
+1.891738738625272e+00,1.451358576588108e-03
+1.916915579844447e+00,1.487109917766143e-03
+1.942427495522285e+00,1.523692264149988e-03
+1.968278945109908e+00,1.561122746140789e-03
+1.994474447408545e+00,1.599418745332816e-03
+2.021018581359408e+00,1.638597892835985e-03
+2.047915986844093e+00,1.678678067213241e-03
+2.075171365495615e+00,1.719677392008713e-03
+2.102789481520257e+00,1.761614232841351e-03
+2.130775162530341e+00,1.804507194037514e-03
+2.159133300388095e+00,1.848375114774632e-03
+2.187868852060737e+00,1.893237064706732e-03
+2.216986840486952e+00,1.939112339041142e-03
+2.246492355454893e+00,1.986020453034223e-03
+2.276390554491870e+00,2.033981135872375e-03
+2.306686663765882e+00,2.083014323902950e-03
+2.337385978999140e+00,2.133140153177994e-03
+2.368493866393755e+00,2.184378951271913e-03
+2.400015763569748e+00,2.236751228332343e-03
+2.431957180515527e+00,2.290277667321509e-03
+2.464323700551041e+00,2.344979113403337e-03
+2.497120981303727e+00,2.400876562429432e-03
+2.530354755697458e+00,2.457991148474848e-03
+2.564030832954658e+00,2.516344130372207e-03
+2.598155099611733e+00,2.575956877190308e-03
+2.632733520548046e+00,2.636850852600861e-03
+2.667772140028560e+00,2.699047598074289e-03
+2.703277082760371e+00,2.762568714842803e-03
+2.739254554963299e+00,2.827435844566053e-03
+2.775710845454729e+00,2.893670648631671e-03
+2.812652326748886e+00,2.961294786019825e-03
+2.850085456170743e+00,3.030329889657684e-03
+2.888016776984756e+00,3.100797541186202e-03
+2.926452919538616e+00,3.172719244058074e-03
+2.965400602422225e+00,3.246116394882025e-03
+3.004866633642099e+00,3.321010252924592e-03
+3.044857911811400e+00,3.397421907676604e-03
+3.085381427355800e+00,3.475372244387208e-03
+3.126444263735405e+00,3.554881907463998e-03
+3.168053598682930e+00,3.635971261632973e-03
+3.210216705458361e+00,3.718660350747466e-03
+3.252940954120311e+00,3.802968854129938e-03
+3.296233812814295e+00,3.888916040325425e-03
+3.340102849078156e+00,3.976520718139868e-03
+3.384555731164858e+00,4.065801184830826e-03
+3.429600229382890e+00,4.156775171312219e-03
+3.475244217454503e+00,4.249459784228351e-03
+3.521495673892030e+00,4.343871444746125e-03
+3.568362683392519e+00,4.440025823907529e-03
+3.615853438250924e+00,4.537937774377341e-03
+3.663976239792119e+00,4.637621258413816e-03
+3.712739499821943e+00,4.739089271882207e-03
+3.762151742097590e+00,4.842353764123170e-03
+3.812221603817538e+00,4.947425553479558e-03
+3.862957837131326e+00,5.054314238276569e-03
+3.914369310669422e+00,5.163028103040979e-03
+3.966465011093442e+00,5.273574019735806e-03
+4.019254044667013e+00,5.385957343776822e-03
+4.072745638847532e+00,5.500181804587050e-03
+4.126949143899116e+00,5.616249390434624e-03
+4.181874034527019e+00,5.734160227288187e-03
+4.237529911533794e+00,5.853912451412353e-03
+4.293926503497504e+00,5.975502075413494e-03
+4.351073668472265e+00,6.098922847433554e-03
+4.408981395711423e+00,6.224166103176254e-03
+4.467659807413660e+00,6.351220610436218e-03
+4.527119160492345e+00,6.480072405787345e-03
+4.587369848368424e+00,6.610704623071543e-03
+4.648422402787189e+00,6.743097313313473e-03
+4.710287495659198e+00,6.877227255670539e-03
+4.772975940925726e+00,7.013067759010528e-03
+4.836498696449016e+00,7.150588453691381e-03
+4.900866865927711e+00,7.289755073099386e-03
+4.966091700837762e+00,7.430529224482669e-03
+5.032184602399166e+00,7.572868148596831e-03
+5.099157123568898e+00,7.716724467658885e-03
+5.167020971060342e+00,7.862045921083529e-03
+5.235788007389615e+00,8.008775088453511e-03
+5.305470252949116e+00,8.156849099151896e-03
+5.376079888108687e+00,8.306199328059519e-03
+5.447629255344713e+00,8.456751076695251e-03
+5.520130861397575e+00,8.608423239149966e-03
+5.593597379457817e+00,8.761127952137134e-03
+5.668041651381405e+00,8.914770228454032e-03
+5.743476689934459e+00,9.069247573117178e-03
+5.819915681067875e+00,9.224449581404158e-03
+5.897371986222209e+00,9.380257518001141e-03
+5.975859144663244e+00,9.536543876421059e-03
+6.055390875848640e+00,9.693171917821854e-03
+6.135981081826065e+00,9.849995188316961e-03
+6.217643849663268e+00,1.000685701383155e-02
+6.300393453910474e+00,1.016358997151762e-02
+6.384244359095568e+00,1.032001533669912e-02
+6.469211222252461e+00,1.047594250427429e-02
+6.555308895483131e+00,1.063116838345720e-02
+6.642552428553752e+00,1.078547676469243e-02
+6.730957071525366e+00,1.093863765752786e-02
+6.820538277419596e+00,1.109040659817877e-02
+6.911311704919786e+00,1.124052392546278e-02
+7.003293221108139e+00,1.138871402372979e-02
+7.096498904239253e+00,1.153468453135324e-02
+7.190945046550597e+00,1.167812551329067e-02
+7.286648157110350e+00,1.181870859616667e-02
+7.383624964703179e+00,1.195608606432007e-02
+7.481892420754412e+00,1.208989214533845e-02
+7.581467702293113e+00,1.221987437315447e-02
+7.682368214954630e+00,1.234598314235864e-02
+7.784611596023049e+00,1.246818823731979e-02
+7.888215717514186e+00,1.258646155494242e-02
+7.993198689299590e+00,1.270077762418763e-02
+8.099578862272134e+00,1.281111347034301e-02
+8.207374831553709e+00,1.291744877040946e-02
+8.316605439745645e+00,1.301976605000589e-02
+8.427289780222369e+00,1.311805155747486e-02
+8.539447200468897e+00,1.321229410731410e-02
+8.653097305462770e+00,1.330248651657512e-02
+8.768259961100952e+00,1.338877627221862e-02
+8.884955297672384e+00,1.347071307940414e-02
+9.003203713376728e+00,1.354875345161996e-02
+9.123025877889937e+00,1.362275728518535e-02
+9.244442735977316e+00,1.369273974076965e-02
+9.367475511154611e+00,1.375872148674721e-02
+9.492145709397864e+00,1.382072871743708e-02
+9.618475122902632e+00,1.387879461995198e-02
+9.746485833893246e+00,1.393295742519752e-02
+9.876200218482735e+00,1.398326336505978e-02
+1.000764095058416e+01,1.402976581410787e-02
+1.014083100587397e+01,1.407252543114274e-02
+1.027579366580813e+01,1.411161237684012e-02
+1.041255252169172e+01,1.414710230710463e-02
+1.055113147880261e+01,1.417908452956122e-02
+1.069155476057010e+01,1.420765530116255e-02
+1.083384691280916e+01,1.423292174934514e-02
+1.097803280801099e+01,1.425500206771268e-02
+1.112413764969068e+01,1.427402594694228e-02
+1.127218697679282e+01,1.429013513320124e-02
+1.142220666815559e+01,1.430348436705798e-02
+1.157422294703442e+01,1.431424186244151e-02
+1.172826238568576e+01,1.432259036982741e-02
+1.188435191001184e+01,1.432872713674737e-02
+1.204251880426734e+01,1.433286613866444e-02
+1.220279071582860e+01,1.433523739438577e-02
+1.236519566002640e+01,1.433608898221297e-02
+1.252976202504293e+01,1.433568732558654e-02
+1.269651857687408e+01,1.433431923159059e-02
+1.286549446435766e+01,1.433229026137266e-02
+1.303671922426858e+01,1.433128969138468e-02
+1.321022278648188e+01,1.432883800270988e-02
+1.338603547920439e+01,1.432632259215708e-02
+1.356418803427607e+01,1.432374134174794e-02
+1.374471159254193e+01,1.432109293077851e-02
+1.392763770929538e+01,1.431837557047887e-02
+1.411299835979406e+01,1.431558754819737e-02
+1.430082594484909e+01,1.431272634226641e-02
+1.449115329648866e+01,1.430979151240920e-02
+1.468401368369706e+01,1.430677970766201e-02
+1.487944081823007e+01,1.430368978307250e-02
+1.507746886050769e+01,1.430051958765431e-02
+1.527813242558536e+01,1.429731164867435e-02
+1.548146658920460e+01,1.429393001167990e-02
+1.568750689392428e+01,1.429050629248012e-02
+1.589628935533334e+01,1.428699377423827e-02
+1.610785046834630e+01,1.428339020728684e-02
+1.632222721358253e+01,1.427969582690291e-02
+1.653945706383039e+01,1.427590037295504e-02
+1.675957799059750e+01,1.427200944665401e-02
+1.698262847074799e+01,1.426801765777273e-02
+1.720864749322833e+01,1.426392251611902e-02
+1.743767456588247e+01,1.425972178370625e-02
+1.766974972235779e+01,1.425541234624152e-02
+1.790491352910293e+01,1.425099145797193e-02
+1.814320709245877e+01,1.424645666574778e-02
+1.838467206584373e+01,1.424180473790834e-02
+1.862935065703476e+01,1.423703243702345e-02
+1.887728563554524e+01,1.423213798172923e-02
+1.912852034010097e+01,1.422711705875923e-02
+1.938309868621575e+01,1.422196680019983e-02
+1.964106517386779e+01,1.421668394932242e-02
+1.990246489527821e+01,1.421126548112475e-02
+2.016734354279313e+01,1.420570756253912e-02
+2.043574741687061e+01,1.420000707312078e-02
+2.070772343417394e+01,1.419416007178751e-02
+2.098331913577260e+01,1.418816323326672e-02
+2.126258269545236e+01,1.418201257595891e-02
+2.154556292813609e+01,1.417570386920710e-02
+2.183230929841639e+01,1.416923475288529e-02
+2.212287192920208e+01,1.416259949867446e-02
+2.241730161047954e+01,1.415579468467993e-02
+2.271564980819080e+01,1.414881613347245e-02
+2.301796867322965e+01,1.414165915509712e-02
+2.332431105055760e+01,1.413432022015295e-02
+2.363473048844113e+01,1.412679382632614e-02
+2.394928124781178e+01,1.411907491376923e-02
+2.426801831175101e+01,1.411116011758082e-02
+2.459099739510108e+01,1.410304408794114e-02
+2.491827495420394e+01,1.409472174625701e-02
+2.524990819676981e+01,1.408618785423868e-02
+2.558595509187690e+01,1.407743776730741e-02
+2.592647438010444e+01,1.406846582563034e-02
+2.627152558380039e+01,1.405926647424530e-02
+2.662116901748591e+01,1.404983393000843e-02
+2.697546579839821e+01,1.404016361058039e-02
+2.733447785717389e+01,1.403025005115607e-02
+2.769826794867418e+01,1.402008356781493e-02
+2.806689966295452e+01,1.400966158051240e-02
+2.844043743637996e+01,1.399897683470562e-02
+2.881894656288861e+01,1.398802388753139e-02
+2.920249320540491e+01,1.397679517321946e-02
+2.959114440740484e+01,1.396528429717060e-02
+2.998496810463500e+01,1.395348455314827e-02
+3.038403313698771e+01,1.394138885464250e-02
+3.078840926053425e+01,1.392899013448645e-02
+3.119816715971793e+01,1.391628131224608e-02
+3.161337845970976e+01,1.390325475941981e-02
+3.203411573892846e+01,1.388990299710256e-02
+3.246045254172703e+01,1.387621814315164e-02
+3.289246339124822e+01,1.386219232882028e-02
+3.333022380245109e+01,1.384781764639365e-02
+3.377381029531094e+01,1.383308559818034e-02
+3.422330040819485e+01,1.381798779402582e-02
+3.467877271141543e+01,1.380251572257137e-02
+3.514030682096466e+01,1.378666145519552e-02
+3.560798341243070e+01,1.377041323388369e-02
+3.608188423509995e+01,1.375376404284747e-02
+3.656209212624666e+01,1.373670439190749e-02
+3.704869102561282e+01,1.371922462771368e-02
+3.754176599008069e+01,1.370131476185050e-02
+3.804140320854066e+01,1.368296470900411e-02
+3.854769001695692e+01,1.366416442687188e-02
+3.906071491363382e+01,1.364490330086628e-02
+3.958056757468505e+01,1.362517157200555e-02
+4.010733886970904e+01,1.360495746145585e-02
+4.064112087767285e+01,1.358425042552940e-02
+4.118200690300744e+01,1.356303890444208e-02
+4.173009149191716e+01,1.354131170229844e-02
+4.228547044890630e+01,1.351905698495361e-02
+4.284824085352565e+01,1.349626299519949e-02
+4.341850107734180e+01,1.347291748688168e-02
+4.399635080113253e+01,1.344900790271821e-02
+4.458189103231066e+01,1.342452192187383e-02
+4.517522412258016e+01,1.339944644568100e-02
+4.577645378582711e+01,1.337376875478058e-02
+4.638568511624867e+01,1.334747463511721e-02
+4.700302460672353e+01,1.332055130910076e-02
+4.762858016742661e+01,1.329298576824564e-02
+4.826246114469173e+01,1.326476235524923e-02
+4.890477834012515e+01,1.323586729683838e-02
+4.955564402997351e+01,1.320628603033668e-02
+5.021517198474982e+01,1.317600371437759e-02
+5.088347748912003e+01,1.314500540193402e-02
+5.156067736205493e+01,1.311327545727937e-02
+5.224688997724986e+01,1.308079879943422e-02
+5.294223528381627e+01,1.304755945250003e-02
+5.364683482724874e+01,1.301354116647917e-02
+5.436081177067085e+01,1.297872753817703e-02
+5.508429091636422e+01,1.294310184183339e-02
+5.581739872758344e+01,1.290664755208934e-02
+5.656026335066189e+01,1.286934639707098e-02
+5.731301463741156e+01,1.283118413437571e-02
+5.807578416782092e+01,1.279214000503437e-02
+5.884870527305498e+01,1.275219719845519e-02
+5.963191305876141e+01,1.271133759813703e-02
+6.042554442868680e+01,1.266954272986460e-02
+6.122973810860727e+01,1.262679425754098e-02
+6.204463467057775e+01,1.258307312601171e-02
+6.287037655750346e+01,1.253836038255053e-02
+6.370710810803898e+01,1.249263667120999e-02
+6.455497558181844e+01,1.244588218002856e-02
+6.541412718502147e+01,1.239807806543435e-02
+6.628471309627953e+01,1.234920444758180e-02
+6.716688549292685e+01,1.229923864426947e-02
+6.806079857760092e+01,1.224816325614282e-02
+6.896660860519684e+01,1.219595672417571e-02
+6.988447391018070e+01,1.214259814434892e-02
+7.081455493426590e+01,1.208806688726954e-02
+7.175701425445840e+01,1.203234206371897e-02
+7.271201661147492e+01,1.197540210952659e-02
+7.367972893853944e+01,1.191722596915754e-02
+7.466032039056286e+01,1.185779222197261e-02
+7.565396237371111e+01,1.179707933078918e-02
+7.666082857536672e+01,1.173506569019790e-02
+7.768109499448909e+01,1.167172909491571e-02
+7.871493997237923e+01,1.160704950721215e-02
+7.976254422385303e+01,1.154100349190296e-02
+8.082409086883041e+01,1.147356985389817e-02
+8.189976546434434e+01,1.140472696491437e-02
+8.298975603697592e+01,1.133445308809102e-02
+8.409425311572129e+01,1.126272639311070e-02
+8.521344976529578e+01,1.118952613956686e-02
+8.634754161988141e+01,1.111482994737027e-02
+8.749672691732347e+01,1.103861727991955e-02
+8.866120653378248e+01,1.096086678968651e-02
+8.984118401884668e+01,1.088155780918490e-02
+9.103686563111253e+01,1.080066974804204e-02
+9.224846037423841e+01,1.071818239789682e-02
+9.347618003347813e+01,1.063407600220136e-02
+9.472023921270083e+01,1.054833105623284e-02
+9.598085537190339e+01,1.046092837605423e-02
+9.725824886522220e+01,1.037184959698180e-02
+9.855264297945068e+01,1.028107670788497e-02
+9.986426397306994e+01,1.018859233500220e-02
+1.011933411157979e+02,1.009437975598713e-02
+1.025401067286656e+02,9.998423127597406e-03
+1.039047962246269e+02,9.900707082315590e-03
+1.052876481497079e+02,9.801217272963920e-03
+1.066889042247047e+02,9.699940752160447e-03
+1.081088093874363e+02,9.596864916353118e-03
+1.095476118355584e+02,9.491978527352462e-03
+1.110055630699492e+02,9.385271958957924e-03
+1.124829179386708e+02,9.276735577645844e-03
+1.139799346815163e+02,9.166362900174892e-03
+1.154968749751500e+02,9.054148044114087e-03
+1.170340039788482e+02,8.940086141359490e-03
+1.185915903808484e+02,8.824175993160387e-03
+1.201699064453161e+02,8.706414209878456e-03
+1.217692280599359e+02,8.586804601026603e-03
+1.233898347841363e+02,8.465349599480729e-03
+1.250320098979566e+02,8.342054833657174e-03
+1.266960404515641e+02,8.216928200735498e-03
+1.283822173154292e+02,8.089980171627695e-03
+1.300908352311701e+02,7.961223862957705e-03
+1.318221928630729e+02,7.830675428129043e-03
+1.335765928502979e+02,7.698353698964359e-03
+1.353543418597802e+02,7.564281109052782e-03
+1.371557506398351e+02,7.428483219892212e-03
+1.389811340744765e+02,7.290989641117172e-03
+1.408308112384579e+02,7.151833275543167e-03
+1.427051054530463e+02,7.011051258938143e-03
+1.446043443425390e+02,6.868685555224609e-03
+1.465288598915311e+02,6.724781843468577e-03
+1.484789885029464e+02,6.579390901359478e-03
+1.504550710568402e+02,6.432569720996846e-03
+1.524574529699846e+02,6.284380159509502e-03
+1.544864842562470e+02,6.134885191920850e-03
+1.565425195877721e+02,5.984162222059844e-03
+1.586259183569780e+02,5.832289256822552e-03
+1.607370447393776e+02,5.679352264751457e-03
+1.628762677572367e+02,5.525444372138642e-03
+1.650439613440772e+02,5.370666154498966e-03
+1.672405044100416e+02,5.215125931584811e-03
+1.694662809081252e+02,5.058939242146092e-03
+1.717216799012910e+02,4.902234030839087e-03
+1.740070956304771e+02,4.745141824049818e-03
+1.763229275835099e+02,4.587807850616364e-03
+1.786695805649339e+02,4.430385666073435e-03
+1.810474647667706e+02,4.273040185101465e-03
+1.834569958402209e+02,4.115947167855355e-03
+1.858985949683187e+02,3.959294138356037e-03
+1.883726889395541e+02,3.803281039688240e-03
+1.908797102224754e+02,3.648120805170091e-03
+1.934200970412841e+02,3.494039737005098e-03
+1.959942934524359e+02,3.341278785031210e-03
+1.986027494222610e+02,3.190093721638454e-03
+2.012459209056179e+02,3.040756302197415e-03
+2.039242699255936e+02,2.893554363299213e-03
+2.066382646542653e+02,2.748793690365929e-03
+2.093883794945350e+02,2.606797780494440e-03
+2.121750951630555e+02,2.467910151251692e-03
+2.149988987742591e+02,2.332493033748634e-03
+2.178602839255040e+02,2.200847509450595e-03
+2.207597507833550e+02,2.073047094103762e-03
+2.236978061710120e+02,1.949121949517555e-03
+2.266749636569015e+02,1.829099398794153e-03
+2.296917436444483e+02,1.713005487197330e-03
+2.327486734630417e+02,1.600862989184936e-03
+2.358462874602108e+02,1.492692229530092e-03
+2.389851270950289e+02,1.388510526585262e-03
+2.421657410327593e+02,1.288332128102923e-03
+2.453886852407615e+02,1.192167822457998e-03
+2.486545230856737e+02,1.100025004918536e-03
+2.519638254318884e+02,1.011906900702233e-03
+2.553171707413388e+02,9.278128011232559e-04
+2.587151451746132e+02,8.477375384803530e-04
+2.621583426934157e+02,7.716711709479857e-04
+2.656473651643890e+02,6.995989676525353e-04
+2.691828224643207e+02,6.315005119835991e-04
+2.727653325867484e+02,5.673499133572478e-04
+2.763955217499849e+02,5.071151700196451e-04
+2.800740245065799e+02,4.507578784281356e-04
+2.838014838542390e+02,3.982327132180564e-04
+2.875785513482192e+02,3.494872126526183e-04
+2.914058872152196e+02,3.044613016009293e-04
+2.952841604687882e+02,2.630864713740617e-04
+2.992140490262656e+02,2.252858262096745e-04
+3.031962398272825e+02,1.909732485142740e-04
+3.072314289538370e+02,1.600530094228023e-04
+3.113203217519684e+02,1.324189268587170e-04
+3.154636329550513e+02,1.079546764581358e-04
+3.196620868087295e+02,8.653161502629233e-05
+3.239164171975137e+02,6.800961504389668e-05
+3.282273677730632e+02,5.223564763695335e-05
+3.325956920841755e+02,3.904330542461222e-05
+3.370221537085065e+02,2.825199637185373e-05
+3.415075263860411e+02,1.966609530886594e-05
+3.460525941543435e+02,1.307439019313955e-05
+3.506581514856054e+02,8.248896044200081e-06
+3.553250034255188e+02,1.360520326514524e-06
+3.600539657339972e+02,1.360520326514524e-06
+3.648458650277690e+02,1.360520326514524e-06
+3.697015389248697e+02,1.360520326514524e-06
+3.746218361910555e+02,1.360520326514524e-06
diff --git a/hazma/spectra/_neutrino/data/neutral_rho_neutrino_mu.csv b/hazma/spectra/_neutrino/data/neutral_rho_neutrino_mu.csv
index 05167fc..fa6c4e9 100644
--- a/hazma/spectra/_neutrino/data/neutral_rho_neutrino_mu.csv
+++ b/hazma/spectra/_neutrino/data/neutral_rho_neutrino_mu.csv
@@ -1,499 +1,499 @@
-# energy,pi_pi0
-5.109989461000004e-01,2.990942979178834e-05
-5.177997474297205e-01,3.070054040537230e-05
-5.246910595111344e-01,3.151243166402055e-05
-5.316740869370211e-01,3.234564350883921e-05
-5.387500503318877e-01,3.320072966589892e-05
-5.459201865653328e-01,3.407825798797993e-05
-5.531857489682500e-01,3.497881080435692e-05
-5.605480075519090e-01,3.590298527879342e-05
-5.680082492299514e-01,3.685139377591867e-05
-5.755677780433416e-01,3.782466423616294e-05
-5.832279153883121e-01,3.882344055942953e-05
-5.909900002473413e-01,3.984838299768432e-05
-5.988553894232063e-01,4.090016855664718e-05
-6.068254577761502e-01,4.197949140677127e-05
-6.149015984642063e-01,4.308706330369982e-05
-6.230852231867199e-01,4.422361401839182e-05
-6.313777624311118e-01,4.538989177711147e-05
-6.397806657229257e-01,4.658666371147821e-05
-6.482954018792038e-01,4.781471631877727e-05
-6.569234592652334e-01,4.907485593273222e-05
-6.656663460547122e-01,5.036790920494499e-05
-6.745255904933746e-01,5.169472359720988e-05
-6.835027411661272e-01,5.305616788491092e-05
-6.925993672677400e-01,5.445313267171463e-05
-7.018170588771390e-01,5.588653091577169e-05
-7.111574272353504e-01,5.735729846764384e-05
-7.206221050271436e-01,5.886639462017429e-05
-7.302127466664224e-01,6.041480267052091e-05
-7.399310285854144e-01,6.200353049457508e-05
-7.497786495277088e-01,6.363361113398943e-05
-7.597573308451960e-01,6.530610339603964e-05
-7.698688167989565e-01,6.702209246654718e-05
-7.801148748641560e-01,6.878269053609095e-05
-7.904972960389978e-01,7.058903743973755e-05
-8.010178951577874e-01,7.244230131051974e-05
-8.116785112081629e-01,7.434367924689476e-05
-8.224810076525477e-01,7.629439799441412e-05
-8.334272727538817e-01,7.829571464183671e-05
-8.445192199056873e-01,8.034891733191854e-05
-8.557587879665278e-01,8.245532598710991e-05
-8.671479415989179e-01,8.461629305039407e-05
-8.786886716127443e-01,8.683320424149702e-05
-8.903829953132563e-01,8.910747932870024e-05
-9.022329568536888e-01,9.144057291648597e-05
-9.142406275925772e-01,9.383397524924198e-05
-9.264081064558289e-01,9.628921303125351e-05
-9.387375203036126e-01,9.880785026320529e-05
-9.512310243021307e-01,1.013914890954156e-04
-9.638908023003399e-01,1.040417706980208e-04
-9.767190672116851e-01,1.067603761483249e-04
-9.897180614009142e-01,1.095490273355264e-04
-1.002890057076040e+00,1.124094878830267e-04
-1.016237356685521e+00,1.153435640885248e-04
-1.029762293320725e+00,1.183531058820924e-04
-1.043467231123748e+00,1.214400078024198e-04
-1.057354565700671e+00,1.246062099914172e-04
-1.071426724540301e+00,1.278536992073457e-04
-1.085686167438497e+00,1.311845098566481e-04
-1.100135386928138e+00,1.346007250446362e-04
-1.114776908714817e+00,1.381044776451868e-04
-1.129613292118326e+00,1.416979513895838e-04
-1.144647130520029e+00,1.453833819746356e-04
-1.159881051816175e+00,1.491630581901827e-04
-1.175317718877255e+00,1.530393230660999e-04
-1.190959830013468e+00,1.570145750388785e-04
-1.206810119446381e+00,1.610912691378673e-04
-1.222871357786870e+00,1.652719181912234e-04
-1.239146352519414e+00,1.695590940516184e-04
-1.255637948492848e+00,1.739554288417160e-04
-1.272349028417632e+00,1.784636162194267e-04
-1.289282513369746e+00,1.830864126629144e-04
-1.306441363301295e+00,1.878266387753174e-04
-1.323828577557901e+00,1.926871806091112e-04
-1.341447195402987e+00,1.976709910100226e-04
-1.359300296549032e+00,2.027810909803742e-04
-1.377391001695908e+00,2.080205710617073e-04
-1.395722473076369e+00,2.133925927365048e-04
-1.414297915008808e+00,2.189003898487954e-04
-1.433120574457365e+00,2.245472700433948e-04
-1.452193741599497e+00,2.303366162234913e-04
-1.471520750401093e+00,2.362718880262536e-04
-1.491104979199248e+00,2.423566233160927e-04
-1.510949851292792e+00,2.485944396951602e-04
-1.531058835540680e+00,2.549890360306314e-04
-1.551435446968342e+00,2.615441939982576e-04
-1.572083247382108e+00,2.682637796416291e-04
-1.593005845991801e+00,2.751517449465328e-04
-1.614206900041632e+00,2.822121294297275e-04
-1.635690115449474e+00,2.894490617413997e-04
-1.657459247454654e+00,2.968667612804987e-04
-1.679518101274365e+00,3.044695398220802e-04
-1.701870532768813e+00,3.122618031557127e-04
-1.724520449115217e+00,3.202480527339290e-04
-1.747471809490776e+00,3.284328873296195e-04
-1.770728625764733e+00,3.368210047011856e-04
-1.794294963199639e+00,3.454172032641724e-04
-1.818174941161962e+00,3.542263837680175e-04
-1.842372733842141e+00,3.632535509764428e-04
-1.866892570984235e+00,3.725038153499193e-04
-1.891738738625272e+00,3.819823947285229e-04
-1.916915579844447e+00,3.916946160133789e-04
-1.942427495522285e+00,4.016459168447842e-04
-1.968278945109908e+00,4.118418472749508e-04
-1.994474447408545e+00,4.222880714331990e-04
-2.021018581359408e+00,4.329903691812729e-04
-2.047915986844093e+00,4.439546377563090e-04
-2.075171365495615e+00,4.551868933988386e-04
-2.102789481520257e+00,4.666932729630274e-04
-2.130775162530341e+00,4.784800355062005e-04
-2.159133300388095e+00,4.905535638545098e-04
-2.187868852060737e+00,5.029203661414177e-04
-2.216986840486952e+00,5.155870773154675e-04
-2.246492355454893e+00,5.285604606136173e-04
-2.276390554491870e+00,5.418474089961722e-04
-2.306686663765882e+00,5.554549465391461e-04
-2.337385978999140e+00,5.693902297796327e-04
-2.368493866393755e+00,5.836605490095069e-04
-2.400015763569748e+00,5.982733295125390e-04
-2.431957180515527e+00,6.132361327396958e-04
-2.464323700551041e+00,6.285566574171453e-04
-2.497120981303727e+00,6.442427405811538e-04
-2.530354755697458e+00,6.603023585337628e-04
-2.564030832954658e+00,6.767436277127967e-04
-2.598155099611733e+00,6.935748054693989e-04
-2.632733520548046e+00,7.108042907459383e-04
-2.667772140028560e+00,7.284406246467386e-04
-2.703277082760371e+00,7.464924908936948e-04
-2.739254554963299e+00,7.649687161584022e-04
-2.775710845454729e+00,7.838782702620185e-04
-2.812652326748886e+00,8.032302662335819e-04
-2.850085456170743e+00,8.230339602170671e-04
-2.888016776984756e+00,8.432987512169332e-04
-2.926452919538616e+00,8.640341806713997e-04
-2.965400602422225e+00,8.852499318421537e-04
-3.004866633642099e+00,9.069558290085852e-04
-3.044857911811400e+00,9.291618364540872e-04
-3.085381427355800e+00,9.518780572312864e-04
-3.126444263735405e+00,9.751147316924641e-04
-3.168053598682930e+00,9.988822357706790e-04
-3.210216705458361e+00,1.023191078996452e-03
-3.252940954120311e+00,1.048051902234068e-03
-3.296233812814295e+00,1.073475475120800e-03
-3.340102849078156e+00,1.099472693191525e-03
-3.384555731164858e+00,1.126054574670348e-03
-3.429600229382890e+00,1.153232256909965e-03
-3.475244217454503e+00,1.181016992458535e-03
-3.521495673892030e+00,1.209420144732884e-03
-3.568362683392519e+00,1.238453183275828e-03
-3.615853438250924e+00,1.268127678574325e-03
-3.663976239792119e+00,1.298455296414069e-03
-3.712739499821943e+00,1.329447791744968e-03
-3.762151742097590e+00,1.361117002030735e-03
-3.812221603817538e+00,1.393474840054519e-03
-3.862957837131326e+00,1.426533286151255e-03
-3.914369310669422e+00,1.460304379835913e-03
-3.966465011093442e+00,1.494800210795493e-03
-4.019254044667013e+00,1.530032909211018e-03
-4.072745638847532e+00,1.566014635374237e-03
-4.126949143899116e+00,1.602757568562107e-03
-4.181874034527019e+00,1.640273895130374e-03
-4.237529911533794e+00,1.678575795785814e-03
-4.293926503497504e+00,1.717675431994788e-03
-4.351073668472265e+00,1.757584931483824e-03
-4.408981395711423e+00,1.798316372785919e-03
-4.467659807413660e+00,1.839881768784046e-03
-4.527119160492345e+00,1.882293049201242e-03
-4.587369848368424e+00,1.925562041984224e-03
-4.648422402787189e+00,1.969700453525115e-03
-4.710287495659198e+00,2.014719847663319e-03
-4.772975940925726e+00,2.060631623406955e-03
-4.836498696449016e+00,2.107446991310471e-03
-4.900866865927711e+00,2.155176948442250e-03
-4.966091700837762e+00,2.203832251872961e-03
-5.032184602399166e+00,2.253423390612296e-03
-5.099157123568898e+00,2.303960555918527e-03
-5.167020971060342e+00,2.355453609901813e-03
-5.235788007389615e+00,2.407912052338734e-03
-5.305470252949116e+00,2.461344985611767e-03
-5.376079888108687e+00,2.515761077683568e-03
-5.447629255344713e+00,2.571168523011919e-03
-5.520130861397575e+00,2.627575001306958e-03
-5.593597379457817e+00,9.161515831695392e-03
-5.668041651381405e+00,9.219941136179778e-03
-5.743476689934459e+00,9.279384977292273e-03
-5.819915681067875e+00,9.339852516477133e-03
-5.897371986222209e+00,9.401348158091237e-03
-5.975859144663244e+00,9.463875492890361e-03
-6.055390875848640e+00,9.527437238535349e-03
-6.135981081826065e+00,9.592035176978993e-03
-6.217643849663268e+00,9.657670088588326e-03
-6.300393453910474e+00,9.724341682850570e-03
-6.384244359095568e+00,9.792048525504369e-03
-6.469211222252461e+00,9.860787961930795e-03
-6.555308895483131e+00,9.930556036631481e-03
-6.642552428553752e+00,1.000134740861332e-02
-6.730957071525366e+00,1.007315526249099e-02
-6.820538277419596e+00,1.014597121510971e-02
-6.911311704919786e+00,1.021978521747999e-02
-7.003293221108139e+00,1.029458545180295e-02
-7.096498904239253e+00,1.037035822334135e-02
-7.190945046550597e+00,1.044708784683209e-02
-7.286648157110350e+00,1.052475652687742e-02
-7.383624964703179e+00,1.060334422943744e-02
-7.481892420754412e+00,1.068270489609664e-02
-7.581467702293113e+00,1.076118082359881e-02
-7.682368214954630e+00,1.083823893909857e-02
-7.784611596023049e+00,1.091385352629481e-02
-7.888215717514186e+00,1.098799862205543e-02
-7.993198689299590e+00,1.106064823824056e-02
-8.099578862272134e+00,1.113177616710289e-02
-8.207374831553709e+00,1.120135563144020e-02
-8.316605439745645e+00,1.126936079666922e-02
-8.427289780222369e+00,1.133576437687879e-02
-8.539447200468897e+00,1.140054033933272e-02
-8.653097305462770e+00,1.146365799556313e-02
-8.768259961100952e+00,1.152510108742166e-02
-8.884955297672384e+00,1.158483238586999e-02
-9.003203713376728e+00,1.164282862032509e-02
-9.123025877889937e+00,1.169906314185628e-02
-9.244442735977316e+00,1.175350911426340e-02
-9.367475511154611e+00,1.180614018621316e-02
-9.492145709397864e+00,1.185692970627577e-02
-9.618475122902632e+00,1.190581967769723e-02
-9.746485833893246e+00,1.195288112153540e-02
-9.876200218482735e+00,1.199799111393377e-02
-1.000764095058416e+01,1.204115632383896e-02
-1.014083100587397e+01,1.208235231403350e-02
-1.027579366580813e+01,1.212155457013382e-02
-1.041255252169172e+01,1.215873885877418e-02
-1.055113147880261e+01,1.219388173826426e-02
-1.069155476057010e+01,1.222696060555345e-02
-1.083384691280916e+01,1.225795254328053e-02
-1.097803280801099e+01,1.228683676756209e-02
-1.112413764969068e+01,1.231359232602094e-02
-1.127218697679282e+01,1.233819972362647e-02
-1.142220666815559e+01,1.236063995276655e-02
-1.157422294703442e+01,1.238089538701630e-02
-1.172826238568576e+01,1.239894956473694e-02
-1.188435191001184e+01,1.241478698173219e-02
-1.204251880426734e+01,1.242839392174153e-02
-1.220279071582860e+01,1.243975784705526e-02
-1.236519566002640e+01,1.244886792459592e-02
-1.252976202504293e+01,1.245571493848305e-02
-1.269651857687408e+01,1.246029153302183e-02
-1.286549446435766e+01,1.246259233445593e-02
-1.303671922426858e+01,1.246267012842492e-02
-1.321022278648188e+01,1.246204663464090e-02
-1.338603547920439e+01,1.246140657751900e-02
-1.356418803427607e+01,1.246074983134149e-02
-1.374471159254193e+01,1.246007577585798e-02
-1.392763770929538e+01,1.245938404008070e-02
-1.411299835979406e+01,1.245867402457083e-02
-1.430082594484909e+01,1.245794504559771e-02
-1.449115329648866e+01,1.245719757097134e-02
-1.468401368369706e+01,1.245643011343786e-02
-1.487944081823007e+01,1.245564251637881e-02
-1.507746886050769e+01,1.245483419662967e-02
-1.527813242558536e+01,1.245400466227806e-02
-1.548146658920460e+01,1.245315331931816e-02
-1.568750689392428e+01,1.245227902093076e-02
-1.589628935533334e+01,1.245138308220518e-02
-1.610785046834630e+01,1.245046300496378e-02
-1.632222721358253e+01,1.244951872350327e-02
-1.653945706383039e+01,1.244854997544997e-02
-1.675957799059750e+01,1.244755534937210e-02
-1.698262847074799e+01,1.244653488096292e-02
-1.720864749322833e+01,1.244548771362571e-02
-1.743767456588247e+01,1.244441298465577e-02
-1.766974972235779e+01,1.244331040172954e-02
-1.790491352910293e+01,1.244218033551301e-02
-1.814320709245877e+01,1.244101763861990e-02
-1.838467206584373e+01,1.243982612293403e-02
-1.862935065703476e+01,1.243860342189324e-02
-1.887728563554524e+01,1.243734880421003e-02
-1.912852034010097e+01,1.243606136093694e-02
-1.938309868621575e+01,1.243474034593562e-02
-1.964106517386779e+01,1.243338481832532e-02
-1.990246489527821e+01,1.243199393050536e-02
-2.016734354279313e+01,1.243056680547269e-02
-2.043574741687061e+01,1.242910213878390e-02
-2.070772343417394e+01,1.242759990103248e-02
-2.098331913577260e+01,1.242605821920495e-02
-2.126258269545236e+01,1.242447664668759e-02
-2.154556292813609e+01,1.242285334701588e-02
-2.183230929841639e+01,1.242118804840401e-02
-2.212287192920208e+01,1.241947963397370e-02
-2.241730161047954e+01,1.241772503156005e-02
-2.271564980819080e+01,1.241592801082256e-02
-2.301796867322965e+01,1.241408276803494e-02
-2.332431105055760e+01,1.241218959328506e-02
-2.363473048844113e+01,1.241024728595108e-02
-2.394928124781178e+01,1.240825647962849e-02
-2.426801831175101e+01,1.240621022749539e-02
-2.459099739510108e+01,1.240411285858191e-02
-2.491827495420394e+01,1.240196118043414e-02
-2.524990819676981e+01,1.239975380441565e-02
-2.558595509187690e+01,1.239748926851632e-02
-2.592647438010444e+01,1.239516619555852e-02
-2.627152558380039e+01,1.239278304883682e-02
-2.662116901748591e+01,1.239033830204596e-02
-2.697546579839821e+01,1.238783183104854e-02
-2.733447785717389e+01,1.238525776935925e-02
-2.769826794867418e+01,1.238261875885334e-02
-2.806689966295452e+01,1.237991148890254e-02
-2.844043743637996e+01,1.237713393973062e-02
-2.881894656288861e+01,1.237428676386675e-02
-2.920249320540491e+01,1.237136515777826e-02
-2.959114440740484e+01,1.236836834840886e-02
-2.998496810463500e+01,1.236529455421750e-02
-3.038403313698771e+01,1.236214179350072e-02
-3.078840926053425e+01,1.235890814747372e-02
-3.119816715971793e+01,1.235559127743457e-02
-3.161337845970976e+01,1.235218951303884e-02
-3.203411573892846e+01,1.234870048520789e-02
-3.246045254172703e+01,1.234512198330150e-02
-3.289246339124822e+01,1.234145221150647e-02
-3.333022380245109e+01,1.233768841885560e-02
-3.377381029531094e+01,1.233382841738113e-02
-3.422330040819485e+01,1.232986340268969e-02
-3.467877271141543e+01,1.232580988995060e-02
-3.514030682096466e+01,1.232164693845700e-02
-3.560798341243070e+01,1.231737767998353e-02
-3.608188423509995e+01,1.231299966420156e-02
-3.656209212624666e+01,1.230851023640516e-02
-3.704869102561282e+01,1.230390699055621e-02
-3.754176599008069e+01,1.229918603705159e-02
-3.804140320854066e+01,1.229434567364299e-02
-3.854769001695692e+01,1.228938246054141e-02
-3.906071491363382e+01,1.228429348096374e-02
-3.958056757468505e+01,1.227907559801281e-02
-4.010733886970904e+01,1.227372572568937e-02
-4.064112087767285e+01,1.226824054309803e-02
-4.118200690300744e+01,1.226261682158537e-02
-4.173009149191716e+01,1.225685126217849e-02
-4.228547044890630e+01,1.225094020997124e-02
-4.284824085352565e+01,1.224488031586696e-02
-4.341850107734180e+01,1.223866800757423e-02
-4.399635080113253e+01,1.223229932084278e-02
-4.458189103231066e+01,1.222577193735526e-02
-4.517522412258016e+01,1.221907842680116e-02
-4.577645378582711e+01,1.221221833637027e-02
-4.638568511624867e+01,1.220518495260575e-02
-4.700302460672353e+01,1.219795641096459e-02
-4.762858016742661e+01,1.219059082279958e-02
-4.826246114469173e+01,1.218301821655083e-02
-4.890477834012515e+01,1.217525709854289e-02
-4.955564402997351e+01,1.216730316272364e-02
-5.021517198474982e+01,1.215915111799380e-02
-5.088347748912003e+01,1.215079626398750e-02
-5.156067736205493e+01,1.214223416922807e-02
-5.224688997724986e+01,1.213345987995050e-02
-5.294223528381627e+01,1.212446893143304e-02
-5.364683482724874e+01,1.211525460349873e-02
-5.436081177067085e+01,1.210581329018384e-02
-5.508429091636422e+01,1.209613923706183e-02
-5.581739872758344e+01,1.208622699391866e-02
-5.656026335066189e+01,1.207607066083580e-02
-5.731301463741156e+01,1.206566486534912e-02
-5.807578416782092e+01,1.205500437416776e-02
-5.884870527305498e+01,1.204408269197650e-02
-5.963191305876141e+01,1.203289366312199e-02
-6.042554442868680e+01,1.202143161985120e-02
-6.122973810860727e+01,1.200969005492330e-02
-6.204463467057775e+01,1.199766273356411e-02
-6.287037655750346e+01,1.198534546514735e-02
-6.370710810803898e+01,1.197272453338568e-02
-6.455497558181844e+01,1.195980038773480e-02
-6.541412718502147e+01,1.194656365655538e-02
-6.628471309627953e+01,1.193300735527322e-02
-6.716688549292685e+01,1.191912436029067e-02
-6.806079857760092e+01,1.190490745704835e-02
-6.896660860519684e+01,1.189034917647148e-02
-6.988447391018070e+01,1.187544187146653e-02
-7.081455493426590e+01,1.186018692874401e-02
-7.175701425445840e+01,1.184454960767543e-02
-7.271201661147492e+01,1.182854912688943e-02
-7.367972893853944e+01,1.181216806076394e-02
-7.466032039056286e+01,1.179539818026366e-02
-7.565396237371111e+01,1.177823122135350e-02
-7.666082857536672e+01,1.176065854266766e-02
-7.768109499448909e+01,1.174267161005592e-02
-7.871493997237923e+01,1.172426153715894e-02
-7.976254422385303e+01,1.170541938280682e-02
-8.082409086883041e+01,1.168613600727431e-02
-8.189976546434434e+01,1.166640225954754e-02
-8.298975603697592e+01,1.164621692156871e-02
-8.409425311572129e+01,1.162554569746934e-02
-8.521344976529578e+01,1.160440341764863e-02
-8.634754161988141e+01,1.158277294235365e-02
-8.749672691732347e+01,1.156064326050371e-02
-8.866120653378248e+01,1.153800475489140e-02
-8.984118401884668e+01,1.151484709845220e-02
-9.103686563111253e+01,1.149115997273519e-02
-9.224846037423841e+01,1.146693279756745e-02
-9.347618003347813e+01,1.144215498980086e-02
-9.472023921270083e+01,1.141681580665025e-02
-9.598085537190339e+01,1.139090424159100e-02
-9.725824886522220e+01,1.136440940088292e-02
-9.855264297945068e+01,1.133732008442961e-02
-9.986426397306994e+01,1.130962506789682e-02
-1.011933411157979e+02,1.128131289180017e-02
-1.025401067286656e+02,1.125237217608026e-02
-1.039047962246269e+02,1.122279130584174e-02
-1.052876481497079e+02,1.119255862196701e-02
-1.066889042247047e+02,1.116166228762850e-02
-1.081088093874363e+02,1.113009050780651e-02
-1.095476118355584e+02,1.109783136747695e-02
-1.110055630699492e+02,1.106487279415577e-02
-1.124829179386708e+02,1.103120281551363e-02
-1.139799346815163e+02,1.099680940577061e-02
-1.154968749751500e+02,1.096167986959605e-02
-1.170340039788482e+02,1.092580259814397e-02
-1.185915903808484e+02,1.088916518523458e-02
-1.201699064453161e+02,1.085175551576428e-02
-1.217692280599359e+02,1.081356104542571e-02
-1.233898347841363e+02,1.077456963591241e-02
-1.250320098979566e+02,1.073476958592557e-02
-1.266960404515641e+02,1.069414828474887e-02
-1.283822173154292e+02,1.065269363277557e-02
-1.300908352311701e+02,1.061039394562602e-02
-1.318221928630729e+02,1.056723691937106e-02
-1.335765928502979e+02,1.052321115804355e-02
-1.353543418597802e+02,1.047830475620013e-02
-1.371557506398351e+02,1.043250610887645e-02
-1.389811340744765e+02,1.038580454586064e-02
-1.408308112384579e+02,1.033818827256206e-02
-1.427051054530463e+02,1.028964738509783e-02
-1.446043443425390e+02,1.024016916355878e-02
-1.465288598915311e+02,1.018974533865046e-02
-1.484789885029464e+02,1.013836527126835e-02
-1.504550710568402e+02,1.008601941501505e-02
-1.524574529699846e+02,1.003269801851149e-02
-1.544864842562470e+02,9.978392853609668e-03
-1.565425195877721e+02,9.923095205819299e-03
-1.586259183569780e+02,9.866797401913294e-03
-1.607370447393776e+02,3.332963766289321e-03
-1.628762677572367e+02,3.274645517732036e-03
-1.650439613440772e+02,3.215303853383142e-03
-1.672405044100416e+02,3.154937866518592e-03
-1.694662809081252e+02,3.093541450250470e-03
-1.717216799012910e+02,3.031110685219864e-03
-1.740070956304771e+02,2.967642611568582e-03
-1.763229275835099e+02,2.903135281169300e-03
-1.786695805649339e+02,2.837587038754032e-03
-1.810474647667706e+02,2.770998480756987e-03
-1.834569958402209e+02,2.703370388299912e-03
-1.858985949683187e+02,2.634705154153129e-03
-1.883726889395541e+02,2.565006239069808e-03
-1.908797102224754e+02,2.494278655480342e-03
-1.934200970412841e+02,2.422528400703921e-03
-1.959942934524359e+02,2.349764308014883e-03
-1.986027494222610e+02,2.275995120718887e-03
-2.012459209056179e+02,2.201235734352374e-03
-2.039242699255936e+02,2.125489553608748e-03
-2.066382646542653e+02,2.048780754237388e-03
-2.093883794945350e+02,1.971124243032652e-03
-2.121750951630555e+02,1.892539009411321e-03
-2.149988987742591e+02,1.813061126188820e-03
-2.178602839255040e+02,1.734071458900149e-03
-2.207597507833550e+02,1.656488619281408e-03
-2.236978061710120e+02,1.580337971226858e-03
-2.266749636569015e+02,1.505645312894439e-03
-2.296917436444483e+02,1.432436582036153e-03
-2.327486734630417e+02,1.360737818090789e-03
-2.358462874602108e+02,1.290575046014084e-03
-2.389851270950289e+02,1.221974696405451e-03
-2.421657410327593e+02,1.154963626876744e-03
-2.453886852407615e+02,1.089567115591418e-03
-2.486545230856737e+02,1.025812909752070e-03
-2.519638254318884e+02,9.637274839111820e-04
-2.553171707413388e+02,9.033366417414978e-04
-2.587151451746132e+02,8.446677859699373e-04
-2.621583426934157e+02,7.877471549409290e-04
-2.656473651643890e+02,7.326012792836349e-04
-2.691828224643207e+02,6.792563419844608e-04
-2.727653325867484e+02,6.277386921352235e-04
-2.763955217499849e+02,5.780743219328085e-04
-2.800740245065799e+02,5.302888389832695e-04
-2.838014838542390e+02,4.844078929866436e-04
-2.875785513482192e+02,4.404565925416513e-04
-2.914058872152196e+02,3.984597517178354e-04
-2.952841604687882e+02,3.584416767305405e-04
-2.992140490262656e+02,3.204263386565722e-04
-3.031962398272825e+02,2.844371163725242e-04
-3.072314289538370e+02,2.504964607419015e-04
-3.113203217519684e+02,2.186269128708949e-04
-3.154636329550513e+02,1.888496150773445e-04
-3.196620868087295e+02,1.611849057655131e-04
-3.239164171975137e+02,1.356526945410259e-04
-3.282273677730632e+02,1.122715991217410e-04
-3.325956920841755e+02,9.105926018730147e-05
-3.370221537085065e+02,7.203167533495848e-05
-3.415075263860411e+02,5.520532513230958e-05
-3.460525941543435e+02,4.059289813669308e-05
-3.506581514856054e+02,2.820730156048160e-05
+# energy,pi_pi
+5.109989461000004e-01,5.981885958357668e-05
+5.177997474297205e-01,6.140108081074460e-05
+5.246910595111344e-01,6.302486332804109e-05
+5.316740869370211e-01,6.469128701767842e-05
+5.387500503318877e-01,6.640145933179783e-05
+5.459201865653328e-01,6.815651597595985e-05
+5.531857489682500e-01,6.995762160871384e-05
+5.605480075519090e-01,7.180597055758685e-05
+5.680082492299514e-01,7.370278755183734e-05
+5.755677780433416e-01,7.564932847232588e-05
+5.832279153883121e-01,7.764688111885906e-05
+5.909900002473413e-01,7.969676599536863e-05
+5.988553894232063e-01,8.180033711329436e-05
+6.068254577761502e-01,8.395898281354254e-05
+6.149015984642063e-01,8.617412660739965e-05
+6.230852231867199e-01,8.844722803678363e-05
+6.313777624311118e-01,9.077978355422294e-05
+6.397806657229257e-01,9.317332742295642e-05
+6.482954018792038e-01,9.562943263755454e-05
+6.569234592652334e-01,9.814971186546444e-05
+6.656663460547122e-01,1.007358184098900e-04
+6.745255904933746e-01,1.033894471944198e-04
+6.835027411661272e-01,1.061123357698218e-04
+6.925993672677400e-01,1.089062653434293e-04
+7.018170588771390e-01,1.117730618315434e-04
+7.111574272353504e-01,1.147145969352877e-04
+7.206221050271436e-01,1.177327892403486e-04
+7.302127466664224e-01,1.208296053410418e-04
+7.399310285854144e-01,1.240070609891502e-04
+7.497786495277088e-01,1.272672222679789e-04
+7.597573308451960e-01,1.306122067920793e-04
+7.698688167989565e-01,1.340441849330944e-04
+7.801148748641560e-01,1.375653810721819e-04
+7.904972960389978e-01,1.411780748794751e-04
+8.010178951577874e-01,1.448846026210395e-04
+8.116785112081629e-01,1.486873584937895e-04
+8.224810076525477e-01,1.525887959888282e-04
+8.334272727538817e-01,1.565914292836734e-04
+8.445192199056873e-01,1.606978346638371e-04
+8.557587879665278e-01,1.649106519742198e-04
+8.671479415989179e-01,1.692325861007881e-04
+8.786886716127443e-01,1.736664084829940e-04
+8.903829953132563e-01,1.782149586574005e-04
+9.022329568536888e-01,1.828811458329719e-04
+9.142406275925772e-01,1.876679504984840e-04
+9.264081064558289e-01,1.925784260625070e-04
+9.387375203036126e-01,1.976157005264106e-04
+9.512310243021307e-01,2.027829781908312e-04
+9.638908023003399e-01,2.080835413960415e-04
+9.767190672116851e-01,2.135207522966499e-04
+9.897180614009142e-01,2.190980546710528e-04
+1.002890057076040e+00,2.248189757660534e-04
+1.016237356685521e+00,2.306871281770496e-04
+1.029762293320725e+00,2.367062117641847e-04
+1.043467231123748e+00,2.428800156048396e-04
+1.057354565700671e+00,2.492124199828343e-04
+1.071426724540301e+00,2.557073984146914e-04
+1.085686167438497e+00,2.623690197132962e-04
+1.100135386928138e+00,2.692014500892725e-04
+1.114776908714817e+00,2.762089552903735e-04
+1.129613292118326e+00,2.833959027791675e-04
+1.144647130520029e+00,2.907667639492712e-04
+1.159881051816175e+00,2.983261163803655e-04
+1.175317718877255e+00,3.060786461321998e-04
+1.190959830013468e+00,3.140291500777571e-04
+1.206810119446381e+00,3.221825382757345e-04
+1.222871357786870e+00,3.305438363824468e-04
+1.239146352519414e+00,3.391181881032368e-04
+1.255637948492848e+00,3.479108576834321e-04
+1.272349028417632e+00,3.569272324388534e-04
+1.289282513369746e+00,3.661728253258287e-04
+1.306441363301295e+00,3.756532775506349e-04
+1.323828577557901e+00,3.853743612182224e-04
+1.341447195402987e+00,3.953419820200452e-04
+1.359300296549032e+00,4.055621819607484e-04
+1.377391001695908e+00,4.160411421234146e-04
+1.395722473076369e+00,4.267851854730095e-04
+1.414297915008808e+00,4.378007796975909e-04
+1.433120574457365e+00,4.490945400867896e-04
+1.452193741599497e+00,4.606732324469825e-04
+1.471520750401093e+00,4.725437760525073e-04
+1.491104979199248e+00,4.847132466321853e-04
+1.510949851292792e+00,4.971888793903204e-04
+1.531058835540680e+00,5.099780720612629e-04
+1.551435446968342e+00,5.230883879965151e-04
+1.572083247382108e+00,5.365275592832582e-04
+1.593005845991801e+00,5.503034898930656e-04
+1.614206900041632e+00,5.644242588594550e-04
+1.635690115449474e+00,5.788981234827994e-04
+1.657459247454654e+00,5.937335225609973e-04
+1.679518101274365e+00,6.089390796441604e-04
+1.701870532768813e+00,6.245236063114253e-04
+1.724520449115217e+00,6.404961054678580e-04
+1.747471809490776e+00,6.568657746592391e-04
+1.770728625764733e+00,6.736420094023713e-04
+1.794294963199639e+00,6.908344065283448e-04
+1.818174941161962e+00,7.084527675360350e-04
+1.842372733842141e+00,7.265071019528855e-04
+1.866892570984235e+00,7.450076306998386e-04
+1.891738738625272e+00,7.639647894570457e-04
+1.916915579844447e+00,7.833892320267578e-04
+1.942427495522285e+00,8.032918336895685e-04
+1.968278945109908e+00,8.236836945499016e-04
+1.994474447408545e+00,8.445761428663981e-04
+2.021018581359408e+00,8.659807383625457e-04
+2.047915986844093e+00,8.879092755126179e-04
+2.075171365495615e+00,9.103737867976773e-04
+2.102789481520257e+00,9.333865459260548e-04
+2.130775162530341e+00,9.569600710124009e-04
+2.159133300388095e+00,9.811071277090195e-04
+2.187868852060737e+00,1.005840732282835e-03
+2.216986840486952e+00,1.031174154630935e-03
+2.246492355454893e+00,1.057120921227235e-03
+2.276390554491870e+00,1.083694817992344e-03
+2.306686663765882e+00,1.110909893078292e-03
+2.337385978999140e+00,1.138780459559265e-03
+2.368493866393755e+00,1.167321098019014e-03
+2.400015763569748e+00,1.196546659025078e-03
+2.431957180515527e+00,1.226472265479392e-03
+2.464323700551041e+00,1.257113314834291e-03
+2.497120981303727e+00,1.288485481162308e-03
+2.530354755697458e+00,1.320604717067526e-03
+2.564030832954658e+00,1.353487255425593e-03
+2.598155099611733e+00,1.387149610938798e-03
+2.632733520548046e+00,1.421608581491877e-03
+2.667772140028560e+00,1.456881249293477e-03
+2.703277082760371e+00,1.492984981787390e-03
+2.739254554963299e+00,1.529937432316804e-03
+2.775710845454729e+00,1.567756540524037e-03
+2.812652326748886e+00,1.606460532467164e-03
+2.850085456170743e+00,1.646067920434134e-03
+2.888016776984756e+00,1.686597502433866e-03
+2.926452919538616e+00,1.728068361342799e-03
+2.965400602422225e+00,1.770499863684307e-03
+3.004866633642099e+00,1.813911658017170e-03
+3.044857911811400e+00,1.858323672908174e-03
+3.085381427355800e+00,1.903756114462573e-03
+3.126444263735405e+00,1.950229463384928e-03
+3.168053598682930e+00,1.997764471541358e-03
+3.210216705458361e+00,2.046382157992905e-03
+3.252940954120311e+00,2.096103804468137e-03
+3.296233812814295e+00,2.146950950241600e-03
+3.340102849078156e+00,2.198945386383049e-03
+3.384555731164858e+00,2.252109149340696e-03
+3.429600229382890e+00,2.306464513819930e-03
+3.475244217454503e+00,2.362033984917069e-03
+3.521495673892030e+00,2.418840289465768e-03
+3.568362683392519e+00,2.476906366551656e-03
+3.615853438250924e+00,2.536255357148649e-03
+3.663976239792119e+00,2.596910592828137e-03
+3.712739499821943e+00,2.658895583489936e-03
+3.762151742097590e+00,2.722234004061470e-03
+3.812221603817538e+00,2.786949680109038e-03
+3.862957837131326e+00,2.853066572302510e-03
+3.914369310669422e+00,2.920608759671825e-03
+3.966465011093442e+00,2.989600421590985e-03
+4.019254044667013e+00,3.060065818422036e-03
+4.072745638847532e+00,3.132029270748474e-03
+4.126949143899116e+00,3.205515137124214e-03
+4.181874034527019e+00,3.280547790260747e-03
+4.237529911533794e+00,3.357151591571629e-03
+4.293926503497504e+00,3.435350863989576e-03
+4.351073668472265e+00,3.515169862967649e-03
+4.408981395711423e+00,3.596632745571838e-03
+4.467659807413660e+00,3.679763537568092e-03
+4.527119160492345e+00,3.764586098402484e-03
+4.587369848368424e+00,3.851124083968449e-03
+4.648422402787189e+00,3.939400907050231e-03
+4.710287495659198e+00,4.029439695326638e-03
+4.772975940925726e+00,4.121263246813910e-03
+4.836498696449016e+00,4.214893982620942e-03
+4.900866865927711e+00,4.310353896884501e-03
+4.966091700837762e+00,4.407664503745921e-03
+5.032184602399166e+00,4.506846781224591e-03
+5.099157123568898e+00,4.607921111837054e-03
+5.167020971060342e+00,4.710907219803627e-03
+5.235788007389615e+00,4.815824104677469e-03
+5.305470252949116e+00,4.922689971223533e-03
+5.376079888108687e+00,5.031522155367136e-03
+5.447629255344713e+00,5.142337046023838e-03
+5.520130861397575e+00,5.255150002613916e-03
+5.593597379457817e+00,1.832303166339078e-02
+5.668041651381405e+00,1.843988227235956e-02
+5.743476689934459e+00,1.855876995458455e-02
+5.819915681067875e+00,1.867970503295427e-02
+5.897371986222209e+00,1.880269631618247e-02
+5.975859144663244e+00,1.892775098578072e-02
+6.055390875848640e+00,1.905487447707070e-02
+6.135981081826065e+00,1.918407035395799e-02
+6.217643849663268e+00,1.931534017717665e-02
+6.300393453910474e+00,1.944868336570114e-02
+6.384244359095568e+00,1.958409705100874e-02
+6.469211222252461e+00,1.972157592386159e-02
+6.555308895483131e+00,1.986111207326296e-02
+6.642552428553752e+00,2.000269481722664e-02
+6.730957071525366e+00,2.014631052498198e-02
+6.820538277419596e+00,2.029194243021942e-02
+6.911311704919786e+00,2.043957043495999e-02
+7.003293221108139e+00,2.058917090360590e-02
+7.096498904239253e+00,2.074071644668270e-02
+7.190945046550597e+00,2.089417569366418e-02
+7.286648157110350e+00,2.104951305375484e-02
+7.383624964703179e+00,2.120668845887488e-02
+7.481892420754412e+00,2.136540979219327e-02
+7.581467702293113e+00,2.152236164719762e-02
+7.682368214954630e+00,2.167647787819714e-02
+7.784611596023049e+00,2.182770705258962e-02
+7.888215717514186e+00,2.197599724411087e-02
+7.993198689299590e+00,2.212129647648111e-02
+8.099578862272134e+00,2.226355233420578e-02
+8.207374831553709e+00,2.240271126288040e-02
+8.316605439745645e+00,2.253872159333844e-02
+8.427289780222369e+00,2.267152875375758e-02
+8.539447200468897e+00,2.280108067866544e-02
+8.653097305462770e+00,2.292731599112626e-02
+8.768259961100952e+00,2.305020217484332e-02
+8.884955297672384e+00,2.316966477173998e-02
+9.003203713376728e+00,2.328565724065018e-02
+9.123025877889937e+00,2.339812628371256e-02
+9.244442735977316e+00,2.350701822852680e-02
+9.367475511154611e+00,2.361228037242631e-02
+9.492145709397864e+00,2.371385941255154e-02
+9.618475122902632e+00,2.381163935539445e-02
+9.746485833893246e+00,2.390576224307079e-02
+9.876200218482735e+00,2.399598222786755e-02
+1.000764095058416e+01,2.408231264767792e-02
+1.014083100587397e+01,2.416470462806699e-02
+1.027579366580813e+01,2.424310914026764e-02
+1.041255252169172e+01,2.431747771754835e-02
+1.055113147880261e+01,2.438776347652852e-02
+1.069155476057010e+01,2.445392121110690e-02
+1.083384691280916e+01,2.451590508656105e-02
+1.097803280801099e+01,2.457367353512417e-02
+1.112413764969068e+01,2.462718465204187e-02
+1.127218697679282e+01,2.467639944725293e-02
+1.142220666815559e+01,2.472127990553310e-02
+1.157422294703442e+01,2.476179077403260e-02
+1.172826238568576e+01,2.479789912947388e-02
+1.188435191001184e+01,2.482957396346439e-02
+1.204251880426734e+01,2.485678784348306e-02
+1.220279071582860e+01,2.487951569411051e-02
+1.236519566002640e+01,2.489773584919184e-02
+1.252976202504293e+01,2.491142987696610e-02
+1.269651857687408e+01,2.492058306604366e-02
+1.286549446435766e+01,2.492518466891187e-02
+1.303671922426858e+01,2.492534025684984e-02
+1.321022278648188e+01,2.492409326928181e-02
+1.338603547920439e+01,2.492281315503800e-02
+1.356418803427607e+01,2.492149966268297e-02
+1.374471159254193e+01,2.492015155171597e-02
+1.392763770929538e+01,2.491876808016139e-02
+1.411299835979406e+01,2.491734804914166e-02
+1.430082594484909e+01,2.491589009119542e-02
+1.449115329648866e+01,2.491439514194267e-02
+1.468401368369706e+01,2.491286022687571e-02
+1.487944081823007e+01,2.491128503275761e-02
+1.507746886050769e+01,2.490966839325933e-02
+1.527813242558536e+01,2.490800932455613e-02
+1.548146658920460e+01,2.490630663863632e-02
+1.568750689392428e+01,2.490455804186153e-02
+1.589628935533334e+01,2.490276616441035e-02
+1.610785046834630e+01,2.490092600992756e-02
+1.632222721358253e+01,2.489903744700655e-02
+1.653945706383039e+01,2.489709995089993e-02
+1.675957799059750e+01,2.489511069874421e-02
+1.698262847074799e+01,2.489306976192584e-02
+1.720864749322833e+01,2.489097542725142e-02
+1.743767456588247e+01,2.488882596931153e-02
+1.766974972235779e+01,2.488662080345909e-02
+1.790491352910293e+01,2.488436067102601e-02
+1.814320709245877e+01,2.488203527723980e-02
+1.838467206584373e+01,2.487965224586805e-02
+1.862935065703476e+01,2.487720684378648e-02
+1.887728563554524e+01,2.487469760842005e-02
+1.912852034010097e+01,2.487212272187389e-02
+1.938309868621575e+01,2.486948069187125e-02
+1.964106517386779e+01,2.486676963665065e-02
+1.990246489527821e+01,2.486398786101073e-02
+2.016734354279313e+01,2.486113361094537e-02
+2.043574741687061e+01,2.485820427756780e-02
+2.070772343417394e+01,2.485519980206495e-02
+2.098331913577260e+01,2.485211643840991e-02
+2.126258269545236e+01,2.484895329337517e-02
+2.154556292813609e+01,2.484570669403176e-02
+2.183230929841639e+01,2.484237609680803e-02
+2.212287192920208e+01,2.483895926794741e-02
+2.241730161047954e+01,2.483545006312011e-02
+2.271564980819080e+01,2.483185602164512e-02
+2.301796867322965e+01,2.482816553606987e-02
+2.332431105055760e+01,2.482437918657011e-02
+2.363473048844113e+01,2.482049457190217e-02
+2.394928124781178e+01,2.481651295925697e-02
+2.426801831175101e+01,2.481242045499078e-02
+2.459099739510108e+01,2.480822571716382e-02
+2.491827495420394e+01,2.480392236086827e-02
+2.524990819676981e+01,2.479950760883130e-02
+2.558595509187690e+01,2.479497853703264e-02
+2.592647438010444e+01,2.479033239111705e-02
+2.627152558380039e+01,2.478556609767363e-02
+2.662116901748591e+01,2.478067660409192e-02
+2.697546579839821e+01,2.477566366209708e-02
+2.733447785717389e+01,2.477051553871851e-02
+2.769826794867418e+01,2.476523751770668e-02
+2.806689966295452e+01,2.475982297780507e-02
+2.844043743637996e+01,2.475426787946124e-02
+2.881894656288861e+01,2.474857352773350e-02
+2.920249320540491e+01,2.474273031555652e-02
+2.959114440740484e+01,2.473673669681772e-02
+2.998496810463500e+01,2.473058910843499e-02
+3.038403313698771e+01,2.472428358700143e-02
+3.078840926053425e+01,2.471781629494745e-02
+3.119816715971793e+01,2.471118255486914e-02
+3.161337845970976e+01,2.470437902607767e-02
+3.203411573892846e+01,2.469740097041579e-02
+3.246045254172703e+01,2.469024396660301e-02
+3.289246339124822e+01,2.468290442301294e-02
+3.333022380245109e+01,2.467537683771119e-02
+3.377381029531094e+01,2.466765683476227e-02
+3.422330040819485e+01,2.465972680537938e-02
+3.467877271141543e+01,2.465161977990120e-02
+3.514030682096466e+01,2.464329387691400e-02
+3.560798341243070e+01,2.463475535996706e-02
+3.608188423509995e+01,2.462599932840312e-02
+3.656209212624666e+01,2.461702047281032e-02
+3.704869102561282e+01,2.460781398111243e-02
+3.754176599008069e+01,2.459837207410318e-02
+3.804140320854066e+01,2.458869134728598e-02
+3.854769001695692e+01,2.457876492108282e-02
+3.906071491363382e+01,2.456858696192747e-02
+3.958056757468505e+01,2.455815119602561e-02
+4.010733886970904e+01,2.454745145137874e-02
+4.064112087767285e+01,2.453648108619606e-02
+4.118200690300744e+01,2.452523364317075e-02
+4.173009149191716e+01,2.451370252435698e-02
+4.228547044890630e+01,2.450188041994248e-02
+4.284824085352565e+01,2.448976063173392e-02
+4.341850107734180e+01,2.447733601514846e-02
+4.399635080113253e+01,2.446459864168556e-02
+4.458189103231066e+01,2.445154387471053e-02
+4.517522412258016e+01,2.443815685360232e-02
+4.577645378582711e+01,2.442443667274054e-02
+4.638568511624867e+01,2.441036990521150e-02
+4.700302460672353e+01,2.439591282192918e-02
+4.762858016742661e+01,2.438118164559916e-02
+4.826246114469173e+01,2.436603643310167e-02
+4.890477834012515e+01,2.435051419708577e-02
+4.955564402997351e+01,2.433460632544729e-02
+5.021517198474982e+01,2.431830223598759e-02
+5.088347748912003e+01,2.430159252797500e-02
+5.156067736205493e+01,2.428446833845615e-02
+5.224688997724986e+01,2.426691975990099e-02
+5.294223528381627e+01,2.424893786286608e-02
+5.364683482724874e+01,2.423050920699747e-02
+5.436081177067085e+01,2.421162658036769e-02
+5.508429091636422e+01,2.419227847412365e-02
+5.581739872758344e+01,2.417245398783732e-02
+5.656026335066189e+01,2.415214132167160e-02
+5.731301463741156e+01,2.413132973069824e-02
+5.807578416782092e+01,2.411000874833551e-02
+5.884870527305498e+01,2.408816538395301e-02
+5.963191305876141e+01,2.406578732624397e-02
+6.042554442868680e+01,2.404286323970239e-02
+6.122973810860727e+01,2.401938010984660e-02
+6.204463467057775e+01,2.399532546712822e-02
+6.287037655750346e+01,2.397069093029470e-02
+6.370710810803898e+01,2.394544906677137e-02
+6.455497558181844e+01,2.391960077546960e-02
+6.541412718502147e+01,2.389312731311076e-02
+6.628471309627953e+01,2.386601471054644e-02
+6.716688549292685e+01,2.383824872058135e-02
+6.806079857760092e+01,2.380981491409670e-02
+6.896660860519684e+01,2.378069835294296e-02
+6.988447391018070e+01,2.375088374293307e-02
+7.081455493426590e+01,2.372037385748802e-02
+7.175701425445840e+01,2.368909921535086e-02
+7.271201661147492e+01,2.365709825377887e-02
+7.367972893853944e+01,2.362433612152789e-02
+7.466032039056286e+01,2.359079636052733e-02
+7.565396237371111e+01,2.355646244270700e-02
+7.666082857536672e+01,2.352131708533533e-02
+7.768109499448909e+01,2.348534322011183e-02
+7.871493997237923e+01,2.344852307431787e-02
+7.976254422385303e+01,2.341083876561363e-02
+8.082409086883041e+01,2.337227201454862e-02
+8.189976546434434e+01,2.333280451909507e-02
+8.298975603697592e+01,2.329243384313743e-02
+8.409425311572129e+01,2.325109139493867e-02
+8.521344976529578e+01,2.320880683529726e-02
+8.634754161988141e+01,2.316554588470731e-02
+8.749672691732347e+01,2.312128652100742e-02
+8.866120653378248e+01,2.307600950978281e-02
+8.984118401884668e+01,2.302969419690439e-02
+9.103686563111253e+01,2.298231994547039e-02
+9.224846037423841e+01,2.293386559513490e-02
+9.347618003347813e+01,2.288430997960172e-02
+9.472023921270083e+01,2.283363161330049e-02
+9.598085537190339e+01,2.278180848318200e-02
+9.725824886522220e+01,2.272881880176583e-02
+9.855264297945068e+01,2.267464016885922e-02
+9.986426397306994e+01,2.261925013579363e-02
+1.011933411157979e+02,2.256262578360033e-02
+1.025401067286656e+02,2.250474435216052e-02
+1.039047962246269e+02,2.244558261168347e-02
+1.052876481497079e+02,2.238511724393403e-02
+1.066889042247047e+02,2.232332457525700e-02
+1.081088093874363e+02,2.226018101561301e-02
+1.095476118355584e+02,2.219566273495390e-02
+1.110055630699492e+02,2.212974558831153e-02
+1.124829179386708e+02,2.206240563102727e-02
+1.139799346815163e+02,2.199361881154123e-02
+1.154968749751500e+02,2.192335973919209e-02
+1.170340039788482e+02,2.185160519628793e-02
+1.185915903808484e+02,2.177833037046916e-02
+1.201699064453161e+02,2.170351103152855e-02
+1.217692280599359e+02,2.162712209085142e-02
+1.233898347841363e+02,2.154913927182482e-02
+1.250320098979566e+02,2.146953917185114e-02
+1.266960404515641e+02,2.138829656949774e-02
+1.283822173154292e+02,2.130538726555114e-02
+1.300908352311701e+02,2.122078789125203e-02
+1.318221928630729e+02,2.113447383874211e-02
+1.335765928502979e+02,2.104642231608710e-02
+1.353543418597802e+02,2.095660951240026e-02
+1.371557506398351e+02,2.086501221775291e-02
+1.389811340744765e+02,2.077160909172128e-02
+1.408308112384579e+02,2.067637654512413e-02
+1.427051054530463e+02,2.057929477019566e-02
+1.446043443425390e+02,2.048033832711757e-02
+1.465288598915311e+02,2.037949067730091e-02
+1.484789885029464e+02,2.027673054253670e-02
+1.504550710568402e+02,2.017203883003009e-02
+1.524574529699846e+02,2.006539603702298e-02
+1.544864842562470e+02,1.995678570721934e-02
+1.565425195877721e+02,1.984619041163860e-02
+1.586259183569780e+02,1.973359480382659e-02
+1.607370447393776e+02,6.665927532578641e-03
+1.628762677572367e+02,6.549291035464071e-03
+1.650439613440772e+02,6.430607706766285e-03
+1.672405044100416e+02,6.309875733037184e-03
+1.694662809081252e+02,6.187082900500939e-03
+1.717216799012910e+02,6.062221370439727e-03
+1.740070956304771e+02,5.935285223137163e-03
+1.763229275835099e+02,5.806270562338600e-03
+1.786695805649339e+02,5.675174077508065e-03
+1.810474647667706e+02,5.541996961513975e-03
+1.834569958402209e+02,5.406740776599825e-03
+1.858985949683187e+02,5.269410308306258e-03
+1.883726889395541e+02,5.130012478139616e-03
+1.908797102224754e+02,4.988557310960685e-03
+1.934200970412841e+02,4.845056801407841e-03
+1.959942934524359e+02,4.699528616029766e-03
+1.986027494222610e+02,4.551990241437774e-03
+2.012459209056179e+02,4.402471468704748e-03
+2.039242699255936e+02,4.250979107217496e-03
+2.066382646542653e+02,4.097561508474776e-03
+2.093883794945350e+02,3.942248486065305e-03
+2.121750951630555e+02,3.785078018822642e-03
+2.149988987742591e+02,3.626122252377641e-03
+2.178602839255040e+02,3.468142917800298e-03
+2.207597507833550e+02,3.312977238562816e-03
+2.236978061710120e+02,3.160675942453716e-03
+2.266749636569015e+02,3.011290625788878e-03
+2.296917436444483e+02,2.864873164072307e-03
+2.327486734630417e+02,2.721475636181577e-03
+2.358462874602108e+02,2.581150092028169e-03
+2.389851270950289e+02,2.443949392810901e-03
+2.421657410327593e+02,2.309927253753488e-03
+2.453886852407615e+02,2.179134231182835e-03
+2.486545230856737e+02,2.051625819504140e-03
+2.519638254318884e+02,1.927454967822364e-03
+2.553171707413388e+02,1.806673283482996e-03
+2.587151451746132e+02,1.689335571939875e-03
+2.621583426934157e+02,1.575494309881858e-03
+2.656473651643890e+02,1.465202558567270e-03
+2.691828224643207e+02,1.358512683968922e-03
+2.727653325867484e+02,1.255477384270447e-03
+2.763955217499849e+02,1.156148643865617e-03
+2.800740245065799e+02,1.060577677966539e-03
+2.838014838542390e+02,9.688157859732873e-04
+2.875785513482192e+02,8.809131850833025e-04
+2.914058872152196e+02,7.969195034356709e-04
+2.952841604687882e+02,7.168833534610810e-04
+2.992140490262656e+02,6.408526773131444e-04
+3.031962398272825e+02,5.688742327450484e-04
+3.072314289538370e+02,5.009929214838030e-04
+3.113203217519684e+02,4.372538257417899e-04
+3.154636329550513e+02,3.776992301546889e-04
+3.196620868087295e+02,3.223698115310261e-04
+3.239164171975137e+02,2.713053890820518e-04
+3.282273677730632e+02,2.245431982434819e-04
+3.325956920841755e+02,1.821185203746029e-04
+3.370221537085065e+02,1.440633506699170e-04
+3.415075263860411e+02,1.104106502646192e-04
+3.460525941543435e+02,8.118579627338615e-05
+3.506581514856054e+02,5.641460312096320e-05
 3.553250034255188e+02,0.000000000000000e+00
 3.600539657339972e+02,0.000000000000000e+00
 3.648458650277690e+02,0.000000000000000e+00
-- 
2.43.0


From 233f293ef3db235ea9fb473792a917fac771f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 11/72] fix: neutral rhos contribute their decay positrons and
 neutrinos to many-body spectra

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..f108e24 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -96,7 +96,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -115,7 +115,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From 7c7387517468e90827f3d7645718a69f063612aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 12/72] fix: final-state neutrinos of many-body states count
 for their own flavor only

---
 hazma/spectra/_nbody.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index f108e24..f8c89d8 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -500,13 +500,18 @@ def _dnde_multi_particle(
         cond = cond or (state == "e" and product == "positron")
         cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
         if cond:
-            dnde += np.interp(
+            line = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if product == "neutrino":
+                # rows are the electron, muon and tau flavors
+                dnde[["ve", "vm", "vt"].index(state)] += line
+            else:
+                dnde += line
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From 9795c1bba2c90fb9f3f05640015696b6a4310d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 13/72] fix: every charged particle of a many-body state
 radiates, also when several are of the same kind

---
 hazma/spectra/_nbody.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index f8c89d8..7db94ac 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -367,23 +367,23 @@ def _dnde_photon_fsr(
         # the same spectrum.
         counts = defaultdict(int)
         dndes = {
-            key: np.zeros_like(photon_energies)
-            for key in final_states
+            p: np.zeros_like(photon_energies)
+            for p, key in enumerate(final_states)
             if key in dnde_fns
         }
 
         for pair, dist in dists.items():
-            for s in [final_states[p] for p in pair]:
+            for p in pair:
                 # Skip neutral particles
-                if s not in dndes:
+                if p not in dndes:
                     continue
 
                 # If average_fsr is False and we've already encountered this
                 # particle, skip it.
-                if average_fsr or counts[s] == 0:
-                    counts[s] += 1
-                    dndes[s] = dndes[s] + _conv_dnde_dist(
-                        photon_energies, dist, s, "fsr"
+                if average_fsr or counts[p] == 0:
+                    counts[p] += 1
+                    dndes[p] = dndes[p] + _conv_dnde_dist(
+                        photon_energies, dist, final_states[p], "fsr"
                     )
 
         for key in dndes.keys():
-- 
2.43.0


From 6a1528bf2dfd8dfec2c90b76397aaeb0f4c5ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 14/72] fix: marginalizing a vectorized spectrum no longer
 fails

---
 hazma/spectra/convolve.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 917029b..fda46eb 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -59,11 +59,14 @@ def make_marginal_fn(
     probs_ = np.expand_dims(np.array(probs), 1)
 
     if vectorized:
-        excluded = (0,) + tuple([i + 2 for i in range(len(args))])
-    else:
-        excluded = tuple([i + 2 for i in range(len(args))])
 
-    integrand = np.vectorize(dnde_fn, excluded=excluded)
+        def integrand(es, _, *args_):
+            return np.array([dnde_fn(np.ravel(es), cme, *args_) for cme in cmes])
+
+    else:
+        integrand = np.vectorize(
+            dnde_fn, excluded=tuple(i + 2 for i in range(len(args)))
+        )
 
     if method == "trapz":
         integrator = np.trapezoid
-- 
2.43.0


From 07f61189f2726c303a82b4dac8da9c2be6349549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 15/72] fix: positron spectrum functions of a decaying model
 are those of their own channel

---
 hazma/theory/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..fbb27dc 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -601,15 +601,14 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         widths = self.decay_widths()
         dndes_wrapped = {}
 
-        for fs, dnde in self._positron_spectrum_funcs().items():
-
-            def dnde_wrapped(e_ps):
-                if widths[fs] > 0:
-                    return dnde(e_ps)
-                else:
-                    return np.zeros_like(e_ps)
+        def dnde_null(e_ps):
+            return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+        for fs, dnde in self._positron_spectrum_funcs().items():
+            if widths[fs] > 0:
+                dndes_wrapped[fs] = dnde
+            else:
+                dndes_wrapped[fs] = dnde_null
 
         return dndes_wrapped
 
-- 
2.43.0


From d0b14037bc18e9fe4673ad1995e37e439d9f99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 16/72] fix: muon pairs give the muon's positron spectrum, not
 its photon spectrum

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From 23b92714221988ec2a4ebfc27860c7071544bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 17/72] fix: line energies of a right-handed neutrino belong to
 its own decay channels

---
 hazma/rh_neutrino/_model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..b505592 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -226,7 +226,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -236,14 +236,14 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         return self.__spectrum_funcs("positron")
 
     def _positron_line_energies(self) -> Dict[str, float]:
+        lines = {}
         if self.flavor == "e":
-            return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
-                / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
-                / (2.0 * self.mx),
-            }
-        return {}
+            for meson in ["pi", "k"]:
+                if self.mx > self.ml + sm_masses[meson]:
+                    lines[f"e {meson}"] = (
+                        self.mx**2 + self.ml**2 - sm_masses[meson] ** 2
+                    ) / (2.0 * self.mx)
+        return lines
 
     def _neutrino_spectrum_funcs(self) -> Dict[str, Callable]:
         """
-- 
2.43.0


From 4df5cb94bb7a7098d541648049ae01ebfee5a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 18/72] fix: positrons of the mediator produced with a neutral
 pion are counted

---
 .../_vector_mediator_positron_spectra.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index 3a49d2e..b46e7a6 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from hazma import spectra
+from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.vector_mediator.vector_mediator_positron_spec import dnde_decay_v
 
 
@@ -11,10 +12,7 @@ class VectorMediatorPositronSpectra:
     def dnde_pos_mumu(self, e_ps, e_cm):
         return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
-    # positron decay spectrum for chi chibar -> v v
-    def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-        # Each scalar gets half the COM energy
-        e_v = e_cm / 2.0
+    def __dnde_pos_v(self, e_ps, e_v, fs="total"):
         pws = self.partial_widths()  # type: ignore
 
         if pws["total"] != 0:
@@ -22,15 +20,25 @@ class VectorMediatorPositronSpectra:
             pw_array = np.array([pws["e e"], pws["mu mu"], pws["pi pi"]])
             pw_array /= pws["total"]
 
-            # Factor of 2 since there are two V's
-            return 2.0 * dnde_decay_v(e_ps, e_v, self.mv, pw_array, fs)  # type: ignore
+            return dnde_decay_v(e_ps, e_v, self.mv, pw_array, fs)  # type: ignore
         else:
             return np.zeros_like(e_ps)
 
+    # positron decay spectrum for chi chibar -> pi0 v
+    def dnde_pos_pi0v(self, e_ps, e_cm, fs="total"):
+        e_v = (e_cm**2 - mpi0**2 + self.mv**2) / (2.0 * e_cm)  # type: ignore
+        return self.__dnde_pos_v(e_ps, e_v, fs)
+
+    # positron decay spectrum for chi chibar -> v v
+    def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
+        # Each vector gets half the COM energy. Factor of 2 since there are two V's
+        return 2.0 * self.__dnde_pos_v(e_ps, e_cm / 2.0, fs)
+
     def positron_spectrum_funcs(self):
         return {
             "mu mu": self.dnde_pos_mumu,
             "pi pi": self.dnde_pos_pipi,
+            "pi0 v": self.dnde_pos_pi0v,
             "v v": self.dnde_pos_vv,
         }
 
-- 
2.43.0


From c1081c09fcf2cc0df0387e771077de8c942706e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 19/72] fix: single-channel models report their photon and
 positron lines

---
 hazma/parameters.py     |  1 +
 hazma/single_channel.py | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index beba99d..869e064 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -132,6 +132,7 @@ standard_model_masses: Dict[str, float] = {
     "phi": phi_mass,
     "photon": 0.0,
     "a": 0.0,
+    "g": 0.0,
 }
 
 # ==============================================================================
diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..8ba4e5b 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -95,11 +95,11 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +117,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -209,11 +209,11 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -232,9 +232,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From 6103fc93274b33f27b074ff3fbeda6ef7ad5c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 20/72] fix: changing a right-handed neutrino's flavor selects
 the generation it names

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index b505592..c0651a1 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 186ad0100c6737e79e46c99196a9db8ccce69d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 21/72] fix: right-handed-neutrino decays to an eta or a rho
 use the spectra of those mesons

---
 hazma/rh_neutrino/_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From e324a93095b722fcf06316a12fbaa47e6280b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 22/72] fix: the neutrino line of the eta channel no longer
 replaces the pion channel's

---
 hazma/rh_neutrino/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index c0651a1..23e9578 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -261,7 +261,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
 
         if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+            lines[f"{vv} eta"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From 105158f04cd65fbe2983f68723db78c134e9d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 23/72] fix: three-neutrino matrix element is quadratic in the
 mixing

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..a3869f3 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -743,7 +743,7 @@ def msqrd_v_v_v(s, t, model: SingleRhNeutrinoModel, gen: Generation):
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     pre = 2.0 if gen == model.gen else 1.0
-    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u
+    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u**2
 
 
 def energy_distributions_v_v_v(
-- 
2.43.0


From b82c78c9c050a9b1eb74cd405c1fe4e2f1cdf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 24/72] fix: lepton order of the three-lepton matrix element
 follows the final state

---
 hazma/rh_neutrino/_widths.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index a3869f3..98edce9 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -604,10 +604,13 @@ def _make_msqrd_and_masses_v_l_l(
 
     elif (genn == genl1) and (genv == genl2):
         mu, md, ml = 0.0, ml2, ml1
-        masses = (mu, md, ml)
+        # The particles are ordered as (genv, genl1, genl2) = (u, l, d), while
+        # the matrix element takes the invariants for the order (u, d, l).
+        masses = (mu, ml, md)
 
         def msqrd(s, t):
-            return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
+            u = model.mx**2 + mu**2 + md**2 + ml**2 - s - t
+            return _msqrd_l_u_d(s, u, model, mu, md, ml, 1.0)
 
     elif (genn == genl2) and (genv == genl1):
         mu, md, ml = 0.0, ml1, ml2
-- 
2.43.0


From 08a6b4515fe4fcb7aeede66a6a99cd633742f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 25/72] fix: conjugate right-handed-neutrino channels are
 counted once, in their width

---
 hazma/rh_neutrino/_model.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 23e9578..1f54d18 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -195,20 +195,12 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Gets a function taking a photon energy and returning the continuum
         gamma ray spectrum dN/dE for each relevant decay final state.
         """
-        ispositron = product == "positron"
-        conjfactor = 1.0 if ispositron else 2.0
-
-        def pre(self_conjugate):
-            return 1.0 if self_conjugate else conjfactor
 
         def mk_dnde(key):
             dnde = self._config[key].dnde
-            self_conjugate = self._config[key].self_conjugate
 
             def new_dnde(energies, **kwargs):
-                return pre(self_conjugate) * dnde(
-                    product_energies=energies, product=product, **kwargs
-                )
+                return dnde(product_energies=energies, product=product, **kwargs)
 
             return new_dnde
 
-- 
2.43.0


From 1f620848d07b621e6d718be5b204a6d16db5713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 26/72] fix: lepton + pseudoscalar width uses the pseudoscalar,
 not the vector, polynomial

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 98edce9..ac45302 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -121,7 +121,7 @@ def _width_l_hp(model: SingleRhNeutrinoModel, ml, mh, fh, ckm):
 
     return (
         pre
-        * ((1 - xl**2) ** 2 + xh**2 * (1 + xl**2) - 2 * xh**4)
+        * ((1 - xl**2) ** 2 - xh**2 * (1 + xl**2))
         * np.sqrt(kallen_lambda(1, xh**2, xl**2))
     )
 
-- 
2.43.0


From 0d5ae2c63798a50939259826e4c9524baf29792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 27/72] fix: reassigning a mass or lepton coupling of a GeV
 vector model recomputes its widths

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 93c5c26..0658948 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -226,7 +226,7 @@ class VectorMediatorGeV(TheoryAnn):
     @mx.setter
     def mx(self, val: float) -> None:
         self._mx = val
-        self._width_cache["x x"]["value"] = self.width_v_to_x_x()
+        self._width_cache["x x"]["valid"] = False
 
     @mv.setter
     def mv(self, val: float) -> None:
@@ -285,7 +285,7 @@ class VectorMediatorGeV(TheoryAnn):
     @gvxx.setter
     def gvxx(self, val: float) -> None:
         self._gvxx = val
-        self._update_width_cache("x x", self.width_v_to_x_x())
+        self._width_cache["x x"]["valid"] = False
 
     @gvuu.setter
     def gvuu(self, val: float) -> None:
@@ -308,27 +308,27 @@ class VectorMediatorGeV(TheoryAnn):
     @gvee.setter
     def gvee(self, val: float) -> None:
         self._gvee = val
-        self._update_width_cache("e e", self.width_v_to_e_e())
+        self._width_cache["e e"]["valid"] = False
 
     @gvmumu.setter
     def gvmumu(self, val: float) -> None:
         self._gvmumu = val
-        self._update_width_cache("mu mu", self.width_v_to_mu_mu())
+        self._width_cache["mu mu"]["valid"] = False
 
     @gvveve.setter
     def gvveve(self, val: float) -> None:
         self._gvveve = val
-        self._update_width_cache("ve ve", self.width_v_to_ve_ve())
+        self._width_cache["ve ve"]["valid"] = False
 
     @gvvmvm.setter
     def gvvmvm(self, val: float) -> None:
         self._gvvmvm = val
-        self._update_width_cache("vm vm", self.width_v_to_vm_vm())
+        self._width_cache["vm vm"]["valid"] = False
 
     @gvvtvt.setter
     def gvvtvt(self, val: float) -> None:
         self._gvvtvt = val
-        self._update_width_cache("vt vt", self.width_v_to_vt_vt())
+        self._width_cache["vt vt"]["valid"] = False
 
     # ========================================================================
     # ---- Form Factors ------------------------------------------------------
-- 
2.43.0


From 04fc184553f8ceb141991f1f6a3ca3fe23b34dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 28/72] fix: KineticMixingGeV.eps can be reassigned

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 0658948..cfa2417 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1141,11 +1141,15 @@ class KineticMixingGeV(VectorMediatorGeV):
     @eps.setter
     def eps(self, eps: float):
         self._eps = eps
-        self.gvuu = -Qu * eps * qe
-        self.gvdd = -Qd * eps * qe
-        self.gvss = -Qd * eps * qe
-        self.gvee = -Qe * eps * qe
-        self.gvmumu = -Qe * eps * qe
+        self._gvuu = -Qu * eps * qe
+        self._gvdd = -Qd * eps * qe
+        self._gvss = -Qd * eps * qe
+        self._gvee = -Qe * eps * qe
+        self._gvmumu = -Qe * eps * qe
+        self._couplings = VectorFormFactorCouplings(
+            self._gvuu, self._gvdd, self._gvss
+        )
+        self._invalidate_width_cache()
 
     def __cannot_set_error(self, param: str) -> AttributeError:
         return AttributeError(f"""
-- 
2.43.0


From b22d9919bb01a286cd8181d6ba06b823aae06966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 29/72] fix: reassigning BLGeV.g updates its form-factor
 couplings and widths

---
 hazma/vector_mediator/_gev/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index cfa2417..559677a 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1255,6 +1255,10 @@ class BLGeV(VectorMediatorGeV):
         self._gvveve = self._g * gl
         self._gvvmvm = self._g * gl
         self._gvvtvt = self._g * gl
+        self._couplings = VectorFormFactorCouplings(
+            self._gvuu, self._gvdd, self._gvss
+        )
+        self._invalidate_width_cache()
 
     @property
     def g(self) -> float:
-- 
2.43.0


From 22195c66a7ef6cc1a936095a36eb928d065280b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 30/72] fix: reassigning SingleChannelDec.fs updates its
 particles and masses

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 8ba4e5b..34355aa 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -156,6 +156,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From 312515c6a1278996ec69cfbc7561aed648065dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 31/72] fix: black holes list their final state under the name
 theories use

---
 hazma/pbh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/pbh.py b/hazma/pbh.py
index 9e85b7f..cb07757 100644
--- a/hazma/pbh.py
+++ b/hazma/pbh.py
@@ -117,7 +117,7 @@ class PBH(TheoryDec):
         self._spectrum_funcs = lambda: {"all": fn}
 
     @staticmethod
-    def list_final_decay_states():
+    def list_decay_final_states():
         return ["all"]
 
     def _decay_widths(self):
-- 
2.43.0


From 67038695a3a58204bdac00d037eb69829cb3e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 32/72] fix: custom constraint images have the shape of the
 parameter grid

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..1b83df2 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
         for i in range(n_rows):
-- 
2.43.0


From 149516f255df0914b3434b3bf51e995f39e346dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 33/72] fix: constraining a plane of parameters leaves the
 model as it was

---
 hazma/theory/_theory_constrain.py | 64 +++++++++++++++++++------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index 1b83df2..e25ce03 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -37,14 +37,18 @@ class TheoryConstrain:
         imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
-        for i in range(n_rows):
-            for j in range(n_cols):
-                # Set this theory's parameters to the values at this point
-                self.__dict__.update(param_grid[i, j].__dict__)
-
-                # Compute all constraints at this point in parameter space
-                for cn, fn in constraints.items():
-                    imgs[cn][i, j] = fn()
+        original = dict(self.__dict__)
+        try:
+            for i in range(n_rows):
+                for j in range(n_cols):
+                    # Set this theory's parameters to the values at this point
+                    self.__dict__.update(param_grid[i, j].__dict__)
+
+                    # Compute all constraints at this point in parameter space
+                    for cn, fn in constraints.items():
+                        imgs[cn][i, j] = fn()
+        finally:
+            self.__dict__.update(original)
 
         if ls_or_img == "image":
             return imgs
@@ -96,14 +100,19 @@ class TheoryConstrain:
         imgs = {cn: np.zeros([n_p2s, n_p1s]) for cn in constraints.keys()}
 
         # Loop over the parameter values
-        for idx_p1, p1_val in np.ndenumerate(p1_vals):
-            for idx_p2, p2_val in np.ndenumerate(p2_vals):
-                setattr(self, p1, p1_val)
-                setattr(self, p2, p2_val)
-
-                # Compute all constraints at this point in parameter space
-                for cn, fn in constraints.items():
-                    imgs[cn][idx_p2[0], idx_p1[0]] = fn()
+        original = getattr(self, p1), getattr(self, p2)
+        try:
+            for idx_p1, p1_val in np.ndenumerate(p1_vals):
+                for idx_p2, p2_val in np.ndenumerate(p2_vals):
+                    setattr(self, p1, p1_val)
+                    setattr(self, p2, p2_val)
+
+                    # Compute all constraints at this point in parameter space
+                    for cn, fn in constraints.items():
+                        imgs[cn][idx_p2[0], idx_p1[0]] = fn()
+        finally:
+            setattr(self, p1, original[0])
+            setattr(self, p2, original[1])
 
         if ls_or_img == "image":
             return imgs
@@ -187,15 +196,20 @@ class TheoryConstrain:
         ls_or_img  # making linter shut up
 
         # Loop over the parameter values
-        for idx_p1, p1_val in np.ndenumerate(p1_vals):
-            for idx_p2, p2_val in np.ndenumerate(p2_vals):
-                setattr(self, p1, p1_val)
-                setattr(self, p2, p2_val)
-
-                # Compute all constraints at this point in parameter space
-                img[idx_p2[0], idx_p1[0]] = self._constrain_binned_gamma_helper(
-                    measurement, n_sigma, method
-                )
+        original = getattr(self, p1), getattr(self, p2)
+        try:
+            for idx_p1, p1_val in np.ndenumerate(p1_vals):
+                for idx_p2, p2_val in np.ndenumerate(p2_vals):
+                    setattr(self, p1, p1_val)
+                    setattr(self, p2, p2_val)
+
+                    # Compute all constraints at this point in parameter space
+                    img[idx_p2[0], idx_p1[0]] = self._constrain_binned_gamma_helper(
+                        measurement, n_sigma, method
+                    )
+        finally:
+            setattr(self, p1, original[0])
+            setattr(self, p2, original[1])
 
         return img
 
-- 
2.43.0


From c5fad7ca063f1d4e01e2d932d8b21d2edd846a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 34/72] fix: total spectra at a single energy are numbers, so
 CMB limits can be computed

---
 hazma/theory/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index fbb27dc..5cc6758 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -206,7 +206,8 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams, e_cm)["total"]
         else:
-            return self.spectra(np.array([e_gams]), e_cm)["total"]
+            total = self.spectra(np.array([e_gams]), e_cm)["total"]
+            return np.asarray(total).item()
 
     @abstractmethod
     def _gamma_ray_line_energies(self, e_cm) -> Dict[str, float]:
@@ -370,7 +371,8 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps, e_cm)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            total = self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            return np.asarray(total).item()
 
     @abstractmethod
     def _positron_line_energies(self, e_cm) -> Dict[str, float]:
@@ -560,7 +562,8 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams)["total"]
         else:
-            return self.spectra(np.array([e_gams]))["total"]
+            total = self.spectra(np.array([e_gams]))["total"]
+            return np.asarray(total).item()
 
     @abstractmethod
     def _gamma_ray_line_energies(self) -> Dict[str, float]:
@@ -627,7 +630,8 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]))["total"]
+            total = self.positron_spectra(np.array([e_ps]))["total"]
+            return np.asarray(total).item()
 
     @abstractmethod
     def _positron_line_energies(self) -> Dict[str, float]:
-- 
2.43.0


From 664a26b45500792a0da144a9f53c7b0a506a43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 35/72] fix: x x -> x x cross section divides by s, not by its
 square root

---
 hazma/scalar_mediator/_scalar_mediator_cross_sections.py | 2 +-
 hazma/vector_mediator/_vector_mediator_cross_sections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index f7f143b..45bdceb 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -264,7 +264,7 @@ def sigma_xx_to_s_to_xx(self, e_cm):
         nodes, weights = leggauss(10)
         nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
         ret_val = mask * np.nan_to_num(
-            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
         )
 
     return ret_val.real
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index ccaaf14..eef3a56 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -254,7 +254,7 @@ class VectorMediatorCrossSections:
             nodes, weights = leggauss(10)
             nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
             ret_val = mask * np.nan_to_num(
-                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
             )
 
         return ret_val.real
-- 
2.43.0


From 3c7c0bb7fc9e836b8e5ced0938661c26e738dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 36/72] fix: x x -> x x cross section resolves the forward peak
 of a light mediator

---
 .../_scalar_mediator_cross_sections.py            | 15 +++++++++++----
 .../_vector_mediator_cross_sections.py            | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index 45bdceb..801b70c 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -260,11 +260,18 @@ def sigma_xx_to_s_to_xx(self, e_cm):
                 )
             ).real
 
-        # Compute the nodes and weights for Legendre-Gauss quadrature
-        nodes, weights = leggauss(10)
-        nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
+        # Compute the nodes and weights for Legendre-Gauss quadrature in
+        # the logarithm of the distance to the t-channel pole,
+        # cos = 1 + pole, which resolves the forward peak of a mediator
+        # that is light compared to the momentum transfer
+        nodes, weights = leggauss(30)
+        nodes = np.reshape(0.5 * (1.0 + nodes), (30, 1))
+        weights = np.reshape(0.5 * weights, (30, 1))
+        pole = 2.0 * rss**2 / np.abs(1.0 - 4.0 * rxs**2)
+        zs = 1.0 + pole - pole**nodes * (2.0 + pole) ** (1.0 - nodes)
+        weights = weights * np.log1p(2.0 / pole) * (1.0 + pole - zs)
         ret_val = mask * np.nan_to_num(
-            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
+            np.sum(weights * msqrd(zs), axis=0) / (32.0 * np.pi * e_cms**2)
         )
 
     return ret_val.real
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index eef3a56..c980b0d 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -250,11 +250,18 @@ class VectorMediatorCrossSections:
                     )
                 )
 
-            # Compute the nodes and weights for Legendre-Gauss quadrature
-            nodes, weights = leggauss(10)
-            nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
+            # Compute the nodes and weights for Legendre-Gauss quadrature in
+            # the logarithm of the distance to the t-channel pole,
+            # cos = 1 + pole, which resolves the forward peak of a mediator
+            # that is light compared to the momentum transfer
+            nodes, weights = leggauss(30)
+            nodes = np.reshape(0.5 * (1.0 + nodes), (30, 1))
+            weights = np.reshape(0.5 * weights, (30, 1))
+            pole = 2.0 * rv**2 / np.abs(1.0 - 4.0 * rx**2)
+            zs = 1.0 + pole - pole**nodes * (2.0 + pole) ** (1.0 - nodes)
+            weights = weights * np.log1p(2.0 / pole) * (1.0 + pole - zs)
             ret_val = mask * np.nan_to_num(
-                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
+                np.sum(weights * msqrd(zs), axis=0) / (32.0 * np.pi * e_cms**2)
             )
 
         return ret_val.real
-- 
2.43.0


From fb5167e53ebd70bf7d3b2993d129640e89de5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 37/72] fix: rounding at the end point of an FSR spectrum does
 not abort the evaluation

---
 hazma/scalar_mediator/_scalar_mediator_fsr.py | 6 ++++--
 hazma/vector_mediator/_vector_mediator_fsr.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_fsr.py b/hazma/scalar_mediator/_scalar_mediator_fsr.py
index ee66944..5e0073d 100644
--- a/hazma/scalar_mediator/_scalar_mediator_fsr.py
+++ b/hazma/scalar_mediator/_scalar_mediator_fsr.py
@@ -33,7 +33,8 @@ def __dnde_xx_to_s_to_ffg(self, photon_energy, Q, mf):
             / (pi * Q * x * (1 - 4 * mu_l**2) ** 1.5)
         ).real
 
-        assert val >= 0
+        # rounding can make the vanishing end-point value slightly negative
+        val = max(val, 0.0)
 
         return val
     else:
@@ -99,7 +100,8 @@ def __dnde_xx_to_s_to_pipig(self, photon_energy, Q):
             / (pi * Q * x * sqrt(1 - 4 * mu_pi**2))
         ).real
 
-        assert val >= 0
+        # rounding can make the vanishing end-point value slightly negative
+        val = max(val, 0.0)
 
         return val
 
diff --git a/hazma/vector_mediator/_vector_mediator_fsr.py b/hazma/vector_mediator/_vector_mediator_fsr.py
index 818003a..67cca53 100644
--- a/hazma/vector_mediator/_vector_mediator_fsr.py
+++ b/hazma/vector_mediator/_vector_mediator_fsr.py
@@ -65,7 +65,8 @@ class VectorMediatorFSR:
                 / (pi * Q * x * sqrt(1 - 4 * mu_l**2) * (1 + 2 * mu_l**2))
             ).real
 
-            assert val >= 0
+            # rounding can make the vanishing end-point value slightly negative
+            val = max(val, 0.0)
             return val
         else:
             return 0.0
@@ -128,7 +129,8 @@ class VectorMediatorFSR:
                 / (pi * Q * x * (1 - 4 * mu_pi**2) ** 1.5)
             ).real
 
-            assert val >= 0
+            # rounding can make the vanishing end-point value slightly negative
+            val = max(val, 0.0)
             return val
 
     def dnde_xx_to_v_to_pipig(self, eng_gams, Q):
-- 
2.43.0


From b4d5bebc3bc328368c3dc50265b035bdc7a58dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 38/72] fix: chi-squared gamma-ray limit is the rate at which
 chi^2 reaches its critical value

---
 hazma/theory/_theory_gamma_ray_limits.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index 0e6ba5f..cf363b5 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -7,6 +7,7 @@ import functools
 import numpy as np
 import numpy.typing as npt
 from scipy.interpolate import InterpolatedUnivariateSpline
+from scipy.optimize import brentq
 from scipy.stats import chi2, norm
 
 from hazma.flux_measurement import FluxMeasurement
@@ -85,15 +86,22 @@ def constrain_chi_squared(phi, measurement: FluxMeasurement, n_sigma: float):
     # Errors on integrated fluxes
     uncertainty = dw * de * measurement.upper_errors
 
-    chi2_obs = np.sum(np.maximum(phi - phi_obs, 0) ** 2 / uncertainty**2)
-
-    if chi2_obs == 0:
+    mask = phi > 0.0
+    if not np.any(mask):
         return np.inf
 
     # Convert n_sigma to chi^2 critical value
-    p_val = norm.cdf(n_sigma)
-    chi2_crit = chi2.ppf(p_val, df=len(phi))
-    return sqrt(chi2_crit / chi2_obs)
+    chi2_crit = chi2.isf(norm.sf(n_sigma), df=len(phi))
+
+    # Predicted fluxes are proportional to the rate: find the rate for which the
+    # excess over the observed fluxes reaches the critical value
+    def excess(rate):
+        chi2_rate = np.sum(np.maximum(rate * phi - phi_obs, 0) ** 2 / uncertainty**2)
+        return chi2_rate - chi2_crit
+
+    # Rate for which the most constraining bin alone reaches the critical value
+    upper = np.min((phi_obs + sqrt(chi2_crit) * uncertainty)[mask] / phi[mask])
+    return brentq(excess, 0.0, 2.0 * upper, xtol=1e-12 * upper)
 
 
 def _differential_background_flux(
-- 
2.43.0


From 1c3869165515de0ed11e484e5c04102f2de68aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 39/72] fix: Fisher matrix uses the background derivatives of
 the flux through the target region

---
 hazma/theory/_theory_gamma_ray_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index cf363b5..cdd9999 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -357,7 +357,7 @@ def fisher(
         return background_model.dPhi_dEdOmega(energy) * dOmega
 
     def dphi_b(energy, key):
-        return background_model.derivatives(energy)[key]
+        return background_model.derivatives(energy)[key] * dOmega
 
     dphi = {key: functools.partial(dphi_b, key=key) for key in background_model.params}
     dphi["rate"] = lambda e: phi_s(e)  # type: ignore
-- 
2.43.0


From 09c473d773a9742882a334bb31d5861c7f3f92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 40/72] fix: GalacticCenterBackgroundModel.params reports the
 exponential index

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..2748689 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From c222a5d332314cd7d288de4fa794c7a55adc9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 41/72] fix: sign of the GECCO background's power-law-index
 derivative

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 2748689..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From 3351bddcc0821921a8fcfa3f94dbc31941b6bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 42/72] fix: FluxMeasurement leaves the caller's flux array
 unchanged

---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From bc57b63284a3f2ba252df0b27f13b6e0622f66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 43/72] fix: binned gamma-ray constraint converts sigma v to
 cm^3/s

---
 hazma/theory/_theory_constrain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index e25ce03..74afd25 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -3,6 +3,8 @@ from skimage import measure
 
 import numpy as np
 
+from hazma.parameters import sv_inv_MeV_to_cm3_per_s
+
 
 class TheoryConstrain:
     def custom_constrain(self, param_grid, ls_or_img="image"):
@@ -128,10 +130,11 @@ class TheoryConstrain:
         if self.kind == "ann":  # type: ignore
             e_cm = 2 * self.mx * (1 + 0.5 * measurement.target.vx**2)  # type: ignore
             f_dm = 2.0
-            # Approximate <sigma v> ~ sigma * v
+            # Approximate <sigma v> ~ sigma * v, in cm^3 / s
             sv = (
                 self.annihilation_cross_sections(e_cm)["total"]  # type: ignore
                 * measurement.target.vx
+                * sv_inv_MeV_to_cm3_per_s
             )
             dm_flux_factor = (
                 sv
-- 
2.43.0


From ecdf94786acd5f9e400490cdd1ab6533363448dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 44/72] fix: a mass rejected by PBH leaves the model unchanged

---
 hazma/pbh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hazma/pbh.py b/hazma/pbh.py
index cb07757..f950fa3 100644
--- a/hazma/pbh.py
+++ b/hazma/pbh.py
@@ -107,9 +107,8 @@ class PBH(TheoryDec):
 
     @mx.setter
     def mx(self, mx):
-        self._mx = mx
-
         idx = np.where(self._mxs == mx)[0][0]
+        self._mx = mx
         fn = interp1d(
             self._e_gams, self._d2n_dedt[:, idx], bounds_error=False, fill_value=0
         )
-- 
2.43.0


From 292f852284d960e846f4860cf667908a9a743567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 45/72] fix: a final state rejected by a single-channel model
 leaves it unchanged

---
 hazma/single_channel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 34355aa..c421967 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -36,9 +36,10 @@ class SingleChannelAnn(TheoryAnn):
 
     @fs.setter
     def fs(self, fs) -> None:
+        final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], final_states))
+        self._final_states = final_states
         self._fs = fs
-        self._final_states = fs.split(" ")
-        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
@@ -155,9 +156,10 @@ class SingleChannelDec(TheoryDec):
 
     @fs.setter
     def fs(self, fs: str) -> None:
+        final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], final_states))
+        self._final_states = final_states
         self._fs = fs
-        self._final_states = fs.split(" ")
-        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From a935539ee800b27aac5d33c5683908cc477533de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 46/72] fix: CMB-era dark matter velocity converts the
 temperature from MeV to eV (1e6, not 10e6)

---
 hazma/cmb.py         | 2 +-
 hazma/limits/_cmb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/cmb.py b/hazma/cmb.py
index e493f92..0e6669d 100644
--- a/hazma/cmb.py
+++ b/hazma/cmb.py
@@ -50,4 +50,4 @@ def vx_cmb(mx, x_kd):
     v_x : float
         The DM relative velocity at the time of CMB formation.
     """
-    return 2.0e-4 * 10e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
+    return 2.0e-4 * 1e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..2376f78 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -78,7 +78,7 @@ class CMBLimit(AbstractLimit):
         v_x : float
             The DM relative velocity at the time of CMB formation.
         """
-        return 2.0e-4 * 10e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
+        return 2.0e-4 * 1e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
 
     def _constrain(self, model):
         r"""
-- 
2.43.0


From f0fc18bd1875665584140fc20e7fea18603f8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 47/72] fix: CMBLimit computes f_eff for the model it
 constrains

---
 hazma/limits/_cmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index 2376f78..bfebf09 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)  # type: ignore
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
-- 
2.43.0


From c29e3e0cffb281f19678830af880aeb793b8728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 48/72] fix: composite constrainers do not share one default
 list

---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..6dbb171 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=()):
+        self._constrainers = list(constrainers)
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From 0adbac5e76235ca76295d9172d3cf1d3e655b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 49/72] fix: GeV vector spectra attach each decay spectrum to
 its own particle (order of the form factor's masses, kaons for pions, two
 charged kaons)

---
 hazma/vector_mediator/_gev/neutrino.py | 36 ++++++++++++++++----------
 hazma/vector_mediator/_gev/positron.py | 36 ++++++++++++++++----------
 hazma/vector_mediator/_gev/spectra.py  | 32 ++++++++++++++---------
 3 files changed, 64 insertions(+), 40 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 6c3c96e..a51fc9f 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -88,6 +88,14 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_neutrino_neutral_kaon(neutrino_energies, kaon_energy, flavor):
+    """Spectrum from a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_neutrino_long_kaon(neutrino_energies, kaon_energy, flavor)
+        + spectra.dnde_neutrino_short_kaon(neutrino_energies, kaon_energy, flavor)
+    )
+
+
 def _dnde_neutrino_two_body(
     neutrino_energies, *, cme, m1, m2, dnde1, dnde2, flavor: NeutrinoFlavor
 ):
@@ -256,7 +264,7 @@ def dnde_neutrino_k_k(
     if cme < 2 * mk:
         return _make_zeros(neutrino_energies)
 
-    dec = spectra.dnde_neutrino_charged_kaon(
+    dec = 2 * spectra.dnde_neutrino_charged_kaon(
         neutrino_energies, cme / 2.0, flavor=flavor
     )
     return dec
@@ -509,9 +517,9 @@ def dnde_neutrino_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -556,9 +564,9 @@ def dnde_neutrino_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -601,9 +609,9 @@ def dnde_neutrino_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta_prime,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -646,9 +654,9 @@ def dnde_neutrino_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -691,9 +699,9 @@ def dnde_neutrino_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +745,9 @@ def dnde_neutrino_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_long_kaon,
         spectra.dnde_neutrino_short_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -784,9 +792,9 @@ def dnde_neutrino_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -831,9 +839,9 @@ def dnde_neutrino_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
-        spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_neutral_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -883,8 +891,8 @@ def dnde_neutrino_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
     ]
@@ -931,8 +939,8 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 913b41a..37b7f1e 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -81,6 +81,14 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_positron_neutral_kaon(positron_energies, kaon_energy):
+    """Spectrum from a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_positron_long_kaon(positron_energies, kaon_energy)
+        + spectra.dnde_positron_short_kaon(positron_energies, kaon_energy)
+    )
+
+
 def _dnde_positron_two_body(positron_energies, *, cme, m1, m2, dnde1, dnde2):
     if cme < m1 + m2:
         return np.zeros_like(positron_energies)
@@ -226,7 +234,7 @@ def dnde_positron_k_k(
     if cme < 2 * mk:
         return np.zeros_like(positron_energies)
 
-    dec = spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
+    dec = 2 * spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
     return dec
 
 
@@ -438,9 +446,9 @@ def dnde_positron_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_positron_zero,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -480,9 +488,9 @@ def dnde_positron_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_positron_eta,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -522,9 +530,9 @@ def dnde_positron_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_positron_eta_prime,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -564,9 +572,9 @@ def dnde_positron_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -606,9 +614,9 @@ def dnde_positron_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         _dnde_positron_zero,
         _dnde_positron_zero,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -649,9 +657,9 @@ def dnde_positron_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_long_kaon,
         spectra.dnde_positron_short_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -693,9 +701,9 @@ def dnde_positron_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_charged_kaon,
         spectra.dnde_positron_charged_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +745,9 @@ def dnde_positron_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
-        spectra.dnde_positron_charged_kaon,
+        _dnde_positron_neutral_kaon,
         spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -786,8 +794,8 @@ def dnde_positron_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
     ]
@@ -831,8 +839,8 @@ def dnde_positron_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         _dnde_positron_zero,
         _dnde_positron_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 15d1157..52a3bb1 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -88,6 +88,14 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_photon_neutral_kaon(photon_energies, kaon_energy):
+    """Spectrum from a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_photon_long_kaon(photon_energies, kaon_energy)
+        + spectra.dnde_photon_short_kaon(photon_energies, kaon_energy)
+    )
+
+
 def _dnde_photon_two_body(photon_energies, *, cme, m1, m2, dnde1, dnde2):
     if cme < m1 + m2:
         return np.zeros_like(photon_energies)
@@ -443,9 +451,9 @@ def dnde_photon_pi_pi_pi0(
     couplings = self._couplings
 
     dnde_decays = [
+        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(q=cme, couplings=couplings, nbins=nbins, npts=npts)
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -454,7 +462,7 @@ def dnde_photon_pi_pi_pi0(
         q=cme, couplings=couplings, nbins=nbins
     )
 
-    dist = inv_mass_dist[(0, 1)]
+    dist = inv_mass_dist[(1, 2)]
     ps = dist.probabilities
     ms = dist.bin_centers
 
@@ -489,9 +497,9 @@ def dnde_photon_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_photon_eta,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -522,9 +530,9 @@ def dnde_photon_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_photon_eta_prime,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta_prime,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -555,9 +563,9 @@ def dnde_photon_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -579,9 +587,9 @@ def dnde_photon_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -603,9 +611,9 @@ def dnde_photon_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_long_kaon,
         spectra.dnde_photon_short_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -625,9 +633,9 @@ def dnde_photon_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -647,9 +655,9 @@ def dnde_photon_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_charged_kaon,
+        _dnde_photon_neutral_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -677,8 +685,8 @@ def dnde_photon_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_photon_charged_kaon,
-        spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
+        spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
     ]
-- 
2.43.0


From c2c8191ac01027fbdc213bd7ee2861dccda8e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 50/72] fix: the pi0 pi0 gamma photon spectrum counted the
 omega -> pi0 gamma branching ratio twice

---
 hazma/vector_mediator/_gev/spectra.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 52a3bb1..5ce0f74 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -397,8 +397,8 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
 
     dnde = spectra.dnde_photon_neutral_pion(photon_energies, epi1)
 
-    # Contributions from omega decay into pi0 + gamma:
-    br_omega_to_pi0_a = 8.34e-2
+    # Contributions from omega decay into pi0 + gamma (the branching ratio is part
+    # of the channel's cross section and width):
 
     # Factors to boost from omega rest-frame to V rest-frame.
     gamma2 = eomega / momega
@@ -410,15 +410,14 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
     # Final state photon from omega decay: In the omega rest-frame, the
     # spectrum is a delta-function. We perform one boost to bring into the V
     # rest-frame.
-    pre = br_omega_to_pi0_a
     e0 = (momega**2 - mpi0**2) / (2 * momega)
-    dnde += pre * boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
+    dnde += boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
 
     # Double-boosted neutral pion: In the pion rest-frame, the spectra is a
     # delta-function. We then boost this into the omega rest-frame, then again
     # into the V rest-frame.
     br_pi0_to_a_a = 98.823e-2
-    pre = 2.0 * br_omega_to_pi0_a * br_pi0_to_a_a
+    pre = 2.0 * br_pi0_to_a_a
     e0 = mpi0 / 2.0
     dnde += pre * double_boost_delta_function(
         photon_energies, e0=e0, m=0.0, beta1=beta1, beta2=beta2
-- 
2.43.0


From c39bb5fa6b0bd75dcc1715fb82360794f6e9624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 51/72] fix: v v spectra of the GeV vector models are the
 boosted mediator decay spectra (branching fractions, two mediators, rest
 frame, lines)

---
 hazma/vector_mediator/_gev/neutrino.py | 69 ++++++++++++++-----------
 hazma/vector_mediator/_gev/positron.py | 70 +++++++++++++++-----------
 hazma/vector_mediator/_gev/spectra.py  | 22 +++++---
 hazma/vector_mediator/_gev/utils.py    | 52 +++++++++++++++++++
 4 files changed, 147 insertions(+), 66 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index a51fc9f..8a41b21 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -32,9 +32,11 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
+from hazma.spectra.boost import boost_delta_function
 from hazma.utils import NeutrinoFlavor
 
+from .utils import boost_mediator_decay
+
 NeutrinoDecaySpectrumFn = Callable[[Any, float, NeutrinoFlavor], Any]
 
 
@@ -982,44 +984,53 @@ def dnde_neutrino_v_v(
     dnde: array
         Spectrum evaluated at `neutrino_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return _make_zeros(neutrino_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
     def dnde(es):
-        args = (es, cme, flavor)
+        args = (es, self.mv, flavor)
         spec = np.zeros_like(es)
-        spec += dnde_neutrino_e_e(self, *args)
-        spec += dnde_neutrino_mu_mu(self, *args)
-        spec += dnde_neutrino_pi_pi(self, *args)
-        spec += dnde_neutrino_k0_k0(self, *args)
-        spec += dnde_neutrino_k_k(self, *args)
-        spec += dnde_neutrino_pi0_gamma(self, *args)
-        spec += dnde_neutrino_eta_gamma(self, *args)
-        spec += dnde_neutrino_pi0_phi(self, *args)
-        spec += dnde_neutrino_eta_phi(self, *args)
-        spec += dnde_neutrino_eta_omega(self, *args)
-        spec += dnde_neutrino_pi0_pi0_gamma(self, *args)
-        spec += dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    booster = boost.make_boost_function(dnde, mass=0.0)
-    return booster(neutrino_energies, beta, method=method)
+        spec += pws["e e"] * dnde_neutrino_e_e(self, *args)
+        spec += pws["mu mu"] * dnde_neutrino_mu_mu(self, *args)
+        spec += pws["pi pi"] * dnde_neutrino_pi_pi(self, *args)
+        spec += pws["k0 k0"] * dnde_neutrino_k0_k0(self, *args)
+        spec += pws["k k"] * dnde_neutrino_k_k(self, *args)
+        spec += pws["pi0 gamma"] * dnde_neutrino_pi0_gamma(self, *args)
+        spec += pws["eta gamma"] * dnde_neutrino_eta_gamma(self, *args)
+        spec += pws["pi0 phi"] * dnde_neutrino_pi0_phi(self, *args)
+        spec += pws["eta phi"] * dnde_neutrino_eta_phi(self, *args)
+        spec += pws["eta omega"] * dnde_neutrino_eta_omega(self, *args)
+        spec += pws["pi0 pi0 gamma"] * dnde_neutrino_pi0_pi0_gamma(self, *args)
+        spec += pws["pi pi pi0"] * dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
+        spec += pws["pi pi eta"] * dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
+        spec += pws["pi pi etap"] * dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
+        spec += pws["pi pi omega"] * dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
+        spec += pws["pi0 pi0 omega"] * dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
+        spec += pws["pi0 k0 k0"] * dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
+        spec += pws["pi0 k k"] * dnde_neutrino_pi0_k_k(self, *args, **kwargs)
+        spec += pws["pi k k0"] * dnde_neutrino_pi_k_k0(self, *args, **kwargs)
+        spec += pws["pi pi pi pi"] * dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
+        spec += pws["pi pi pi0 pi0"] * dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
+
+        # Factor of 2 for 2 vectors
+        return 2.0 * spec / pw
+
+    boosted = boost_mediator_decay(dnde, neutrino_energies, self.mv, beta)
+
+    # Neutrino and antineutrino from each of the two vectors
+    key = {"e": "ve ve", "mu": "vm vm", "tau": "vt vt"}[flavor]
+    line = boost_delta_function(neutrino_energies, 0.5 * self.mv, 0.0, beta)
+    boosted += 4.0 * pws[key] / pw * line
+
+    return boosted
 
 
 NeutrinoSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 37b7f1e..4514fcb 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -33,7 +33,9 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
+from hazma.spectra.boost import boost_delta_function
+
+from .utils import boost_mediator_decay
 
 PositronDecaySpectrumFn = Callable[[Any, float], Any]
 
@@ -879,45 +881,53 @@ def dnde_positron_v_v(
     dnde: array
         Spectrum evaluated at `photon_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return np.zeros_like(positron_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
     def dnde(es):
-        args = (es, cme)
+        args = (es, self.mv)
         spec = np.zeros_like(es)
-        spec += dnde_positron_e_e(self, *args)
-        spec += dnde_positron_mu_mu(self, *args)
-        spec += dnde_positron_pi_pi(self, *args)
-        spec += dnde_positron_k0_k0(self, *args)
-        spec += dnde_positron_k_k(self, *args)
-        spec += dnde_positron_pi0_gamma(self, *args)
-        spec += dnde_positron_eta_gamma(self, *args)
-        spec += dnde_positron_pi0_phi(self, *args)
-        spec += dnde_positron_eta_phi(self, *args)
-        spec += dnde_positron_eta_omega(self, *args)
-        spec += dnde_positron_pi0_pi0_gamma(self, *args)
-        spec += dnde_positron_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_positron_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    return boost.make_boost_function(dnde, mass=me)(
-        positron_energies, beta, method=method
-    )
+        spec += pws["e e"] * dnde_positron_e_e(self, *args)
+        spec += pws["mu mu"] * dnde_positron_mu_mu(self, *args)
+        spec += pws["pi pi"] * dnde_positron_pi_pi(self, *args)
+        spec += pws["k0 k0"] * dnde_positron_k0_k0(self, *args)
+        spec += pws["k k"] * dnde_positron_k_k(self, *args)
+        spec += pws["pi0 gamma"] * dnde_positron_pi0_gamma(self, *args)
+        spec += pws["eta gamma"] * dnde_positron_eta_gamma(self, *args)
+        spec += pws["pi0 phi"] * dnde_positron_pi0_phi(self, *args)
+        spec += pws["eta phi"] * dnde_positron_eta_phi(self, *args)
+        spec += pws["eta omega"] * dnde_positron_eta_omega(self, *args)
+        spec += pws["pi0 pi0 gamma"] * dnde_positron_pi0_pi0_gamma(self, *args)
+        spec += pws["pi pi pi0"] * dnde_positron_pi_pi_pi0(self, *args, **kwargs)
+        spec += pws["pi pi eta"] * dnde_positron_pi_pi_eta(self, *args, **kwargs2)
+        spec += pws["pi pi etap"] * dnde_positron_pi_pi_etap(self, *args, **kwargs2)
+        spec += pws["pi pi omega"] * dnde_positron_pi_pi_omega(self, *args, **kwargs2)
+        spec += pws["pi0 pi0 omega"] * dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
+        spec += pws["pi0 k0 k0"] * dnde_positron_pi0_k0_k0(self, *args, **kwargs)
+        spec += pws["pi0 k k"] * dnde_positron_pi0_k_k(self, *args, **kwargs)
+        spec += pws["pi k k0"] * dnde_positron_pi_k_k0(self, *args, **kwargs)
+        spec += pws["pi pi pi pi"] * dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
+        spec += pws["pi pi pi0 pi0"] * dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
+
+        # Factor of 2 for 2 vectors
+        return 2.0 * spec / pw
+
+    boosted = boost_mediator_decay(dnde, positron_energies, self.mv, beta, mass=me)
+
+    # Electron and positron from each of the two vectors
+    if self.mv > 2.0 * me:
+        line = boost_delta_function(positron_energies, 0.5 * self.mv, me, beta)
+        boosted += 4.0 * pws["e e"] / pw * line
+
+    return boosted
 
 
 PositronSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 5ce0f74..dab1b20 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -21,11 +21,12 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
 from hazma.spectra.altarelli_parisi import dnde_photon_ap_fermion, dnde_photon_ap_scalar
 from hazma.spectra.boost import boost_delta_function, double_boost_delta_function
 from hazma.utils import RealArray
 
+from .utils import boost_mediator_decay
+
 if TYPE_CHECKING:
     from hazma.form_factors.vector import (
         VectorFormFactorPi0K0K0,
@@ -839,14 +840,21 @@ def dnde_photon_v_v(
 
     beta = np.sqrt(1.0 - gamma**-2)
 
-    dnde = _dnde_photon_v_v_rest_frame(self, photon_energies, npts=npts, nbins=nbins)
-    boosted = boost.dnde_boost_array(dnde, photon_energies, beta)
+    boosted = boost_mediator_decay(
+        lambda es: _dnde_photon_v_v_rest_frame(self, es, npts=npts, nbins=nbins),
+        photon_energies,
+        mv,
+        beta,
+    )
 
     # Factor of 2 for 2 vectors
-    e0pi = 0.5 * (mv - mpi**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0pi, 0.0, beta)
-    e0eta = 0.5 * (mv - meta**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0eta, 0.0, beta)
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    for key, mass in (("pi0 gamma", mpi0), ("eta gamma", meta)):
+        if mv > mass:
+            e0 = 0.5 * (mv - mass**2 / mv)
+            line = boost_delta_function(photon_energies, e0, 0.0, beta)
+            boosted += 2 * pws[key] / pw * line
 
     return boosted
 
diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index 3226da9..9350ce7 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -2,6 +2,7 @@ from typing import List, Dict, Union, overload
 
 import numpy as np
 import numpy.typing as npt
+from scipy import interpolate
 
 from hazma import parameters
 
@@ -93,3 +94,54 @@ def channel_open(
     mass_dict: Dict[str, float] = {**STR_TO_MASS, **extra_masses}
     states: List[str] = state.split(delimiter)
     return cme > sum(map(lambda s: mass_dict[s], states))
+
+
+def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, npts=500):
+    """Boost the spectrum of a mediator decaying at rest.
+
+    Parameters
+    ----------
+    dnde_rest: callable
+        Function of an array of energies returning the spectrum in the rest
+        frame of the mediator.
+    energies: array
+        Energies where the boosted spectrum should be computed.
+    mv: float
+        Mass of the mediator.
+    beta: float
+        Velocity of the mediator.
+    mass: float
+        Mass of the product.
+    npts: int
+        Number of energies at which the rest-frame spectrum is sampled.
+
+    Returns
+    -------
+    dnde: array
+        Boosted spectrum evaluated at `energies`.
+    """
+    es = np.atleast_1d(np.asarray(energies, dtype=np.float64))
+    dnde = np.zeros_like(es)
+
+    def rapidity(e):
+        return np.log(e) if mass == 0.0 else np.arccosh(np.clip(e / mass, 1.0, None))
+
+    emax = 0.5 * mv
+    mask = es > mass
+    if beta < np.finfo(float).eps:
+        dnde[mask] = dnde_rest(es[mask])
+    elif np.any(mask):
+        gamma = 1.0 / np.sqrt(1.0 - beta**2)
+        k = np.sqrt(es[mask] ** 2 - mass**2)
+        # The rest-frame spectrum is integrated over dE / k, the rapidity.
+        lower = rapidity(gamma * (es[mask] - beta * k))
+        upper = np.minimum(rapidity(gamma * (es[mask] + beta * k)), rapidity(emax))
+        eta = np.linspace(min(lower.min(), upper.max()), rapidity(emax), npts)
+        rest = dnde_rest(np.exp(eta) if mass == 0.0 else mass * np.cosh(eta))
+        spline = interpolate.InterpolatedUnivariateSpline(eta, rest, k=1)
+        dnde[mask] = [
+            spline.integral(a, b) if a < b else 0.0 for a, b in zip(lower, upper)
+        ]
+        dnde /= 2.0 * gamma * beta
+
+    return dnde if np.ndim(energies) else dnde[0]
-- 
2.43.0


From f7485f2bafb808b47cb9aa766803d9107bbbf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 52/72] fix: GeV x x -> v v cross section includes 1/2 for the
 identical mediators

---
 hazma/vector_mediator/_gev/cross_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 773f744..db67b87 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -178,7 +178,8 @@ def sigma_xx_to_v_v(self, cme):
     sqrtx = np.sqrt(1.0 - 4 * mux2)
     sqrtv = np.sqrt(1.0 - 4 * muv2)
     sqrtxv = sqrtx * sqrtv
-    pre = self.gvxx**4 * sqrtv / (4.0 * np.pi * sqrtx * qq**2)
+    # Includes 1/2 for identical particles in the final state
+    pre = self.gvxx**4 * sqrtv / (8.0 * np.pi * sqrtx * qq**2)
 
     sigma[mask] = pre * (
         -((2 * muv4 + mux2 + 4 * mux4) / (muv4 + mux2 - 4 * muv2 * mux2))
-- 
2.43.0


From 5308303fe23ea428a6f9e5ac9c1837547281bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 53/72] fix: GeV cross sections of v v at integer energies and
 of pi0 pi0 gamma below every threshold

---
 hazma/vector_mediator/_gev/cross_sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index db67b87..1c7dcae 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -98,7 +98,7 @@ def __sigma_from_width_fn(self, width: Callable, e_cm, fsp_masses: Sequence[floa
         rescale = np.zeros_like(cme)
 
         rescale = __width_to_cs(self, cme[mask])
-        cs[mask] = np.vectorize(width)(cme[mask]) * rescale
+        cs[mask] = np.vectorize(width, otypes=[np.float64])(cme[mask]) * rescale
 
         return cs
     else:
@@ -161,7 +161,7 @@ def sigma_xx_to_v_v(self, cme):
         Cross section.
     """
     scalar = not hasattr(cme, "__len__")
-    q = np.array([cme]) if scalar else np.array(cme)
+    q = np.atleast_1d(np.array(cme, dtype=np.float64))
 
     mask = (2 * self.mv < q) & (2 * self.mx < q)
 
-- 
2.43.0


From 48f4ad33af5547525fc1605c84f56f75a8862b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 54/72] fix: form factor cross sections vanish below the dark
 matter threshold instead of being NaN

---
 hazma/form_factors/vector/_base.py        |  2 +-
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/hazma/form_factors/vector/_base.py b/hazma/form_factors/vector/_base.py
index cf3d898..604bd11 100644
--- a/hazma/form_factors/vector/_base.py
+++ b/hazma/form_factors/vector/_base.py
@@ -188,7 +188,7 @@ class VectorFormFactor(abc.ABC):
         single = np.isscalar(q)
         qq = np.atleast_1d(q).astype(np.float64)
 
-        mask = qq > sum(self.fsp_masses)
+        mask = (qq > sum(self.fsp_masses)) & (qq > 2 * mx)
         cs = np.zeros_like(qq)
 
         if np.any(mask):
diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index cede309..0495e54 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -857,14 +857,21 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         single = np.isscalar(q)
         qq = np.atleast_1d(q).astype(np.float64)
 
-        s = qq**2
-        pre = (
-            gvxx**2
-            * (s + 2 * mx**2)
-            / (np.sqrt(s - 4 * mx**2) * ((s - mv**2) ** 2 + (mv * wv) ** 2))
-        )
-        pre = pre * 0.5 * qq
-        cs = pre * self.integrated_form_factor(q=qq, couplings=couplings, npts=npts)
+        mask = qq > 2 * mx
+        cs = np.zeros_like(qq)
+
+        if np.any(mask):
+            qq = qq[mask]
+            s = qq**2
+            pre = (
+                gvxx**2
+                * (s + 2 * mx**2)
+                / (np.sqrt(s - 4 * mx**2) * ((s - mv**2) ** 2 + (mv * wv) ** 2))
+            )
+            pre = pre * 0.5 * qq
+            cs[mask] = pre * self.integrated_form_factor(
+                q=qq, couplings=couplings, npts=npts
+            )
 
         if single:
             return cs[0]
-- 
2.43.0


From b979f041bd022cb0dadaba505440086c129ad5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 55/72] fix: v v spectra of the GeV vector models above their
 endpoint

---
 hazma/vector_mediator/_gev/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index 9350ce7..7b5a711 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -135,8 +135,9 @@ def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, npts=500):
         k = np.sqrt(es[mask] ** 2 - mass**2)
         # The rest-frame spectrum is integrated over dE / k, the rapidity.
         lower = rapidity(gamma * (es[mask] - beta * k))
-        upper = np.minimum(rapidity(gamma * (es[mask] + beta * k)), rapidity(emax))
-        eta = np.linspace(min(lower.min(), upper.max()), rapidity(emax), npts)
+        eta_max = rapidity(emax)
+        upper = np.minimum(rapidity(gamma * (es[mask] + beta * k)), eta_max)
+        eta = np.linspace(min(lower.min(), eta_max - 1.0), eta_max, npts)
         rest = dnde_rest(np.exp(eta) if mass == 0.0 else mass * np.cosh(eta))
         spline = interpolate.InterpolatedUnivariateSpline(eta, rest, k=1)
         dnde[mask] = [
-- 
2.43.0


From b2bb8f4f8ae79c188961abb4abad95c4b2cf2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:42 +0000
Subject: [PATCH 56/72] fix: GeV cross sections lose the propagator (even its
 sign) to cancellation near a narrow resonance

---
 hazma/vector_mediator/_gev/cross_sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 1c7dcae..4af2dc3 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -70,7 +70,7 @@ def __width_to_cs(self, cme):
     muv2 = (self.mv / cme) ** 2
 
     num = gvxx**2 * (1 + 2 * mux2)
-    den = (1.0 + (mug2 - 2.0) * muv2 + muv2**2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3
+    den = ((1.0 - muv2) ** 2 + mug2 * muv2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3
     return num / den
 
 
@@ -137,7 +137,7 @@ def __sigma_xx_to_f_f(self, e_cm, gvff, mf):
         * np.pi
         * np.sqrt(1 - (4 * mx**2) / s)
         * s
-        * (mv**4 + s**2 + mv**2 * (-2 * s + widthv**2))
+        * ((s - mv**2) ** 2 + mv**2 * widthv**2)
     )
 
     if single:
-- 
2.43.0


From debcc9fd2409e30e46f93c625f9b404e3835b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 57/72] fix: form factors of eta omega, eta phi, pi0 gamma, pi0
 omega and pi0 phi in 1/MeV for a single energy too

---
 hazma/form_factors/vector/_eta_omega.py | 2 +-
 hazma/form_factors/vector/_eta_phi.py   | 2 +-
 hazma/form_factors/vector/_pi_gamma.py  | 2 +-
 hazma/form_factors/vector/_pi_omega.py  | 2 +-
 hazma/form_factors/vector/_pi_phi.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hazma/form_factors/vector/_eta_omega.py b/hazma/form_factors/vector/_eta_omega.py
index 1c8ab70..ca0cdd5 100644
--- a/hazma/form_factors/vector/_eta_omega.py
+++ b/hazma/form_factors/vector/_eta_omega.py
@@ -146,7 +146,7 @@ class VectorFormFactorEtaOmega(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_eta_phi.py b/hazma/form_factors/vector/_eta_phi.py
index cf43499..2f7668e 100644
--- a/hazma/form_factors/vector/_eta_phi.py
+++ b/hazma/form_factors/vector/_eta_phi.py
@@ -141,7 +141,7 @@ class VectorFormFactorEtaPhi(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, gvss=couplings[2])
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_gamma.py b/hazma/form_factors/vector/_pi_gamma.py
index b017d40..eaf6cac 100644
--- a/hazma/form_factors/vector/_pi_gamma.py
+++ b/hazma/form_factors/vector/_pi_gamma.py
@@ -192,7 +192,7 @@ class VectorFormFactorPi0Gamma(VectorFormFactorPA):
         ff[mask] = self.__form_factor(q=qq[mask], couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_omega.py b/hazma/form_factors/vector/_pi_omega.py
index d12f218..de68ad1 100644
--- a/hazma/form_factors/vector/_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_omega.py
@@ -189,7 +189,7 @@ class VectorFormFactorPi0Omega(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_phi.py b/hazma/form_factors/vector/_pi_phi.py
index e87dff9..be90272 100644
--- a/hazma/form_factors/vector/_pi_phi.py
+++ b/hazma/form_factors/vector/_pi_phi.py
@@ -188,7 +188,7 @@ class VectorFormFactorPi0Phi(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
-- 
2.43.0


From 12fa01925ce969fec106fc83be73b9b4696c0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 58/72] fix: eta_phi correction of the K0 K0 form factor
 belongs to the phi, not to the first energy

---
 hazma/form_factors/vector/_k_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_k_k.py b/hazma/form_factors/vector/_k_k.py
index 8dc2da6..5dd4234 100644
--- a/hazma/form_factors/vector/_k_k.py
+++ b/hazma/form_factors/vector/_k_k.py
@@ -441,7 +441,7 @@ class _VectorFormFactorKKBase(VectorFormFactorPP):
 
         phi_terms = 1.0 / 3.0 * cs * self.fit_data.phi_coup * bwp
         if self._imode == 0:
-            phi_terms[0] *= eta_phi
+            phi_terms[:, 0] *= eta_phi
         fk += phi_terms
 
         return np.sum(fk, axis=1)
-- 
2.43.0


From e3df85cbea17f53e785c2e2502b0f47de5c71c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 59/72] fix: Lorentz structure of two pseudoscalars and a
 vector takes the vector's energy

---
 hazma/form_factors/vector/_three_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 29ac1cb..80bf486 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -711,9 +711,9 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         raise NotImplementedError()
 
     def __squared_lorentz_structure(self, q, s, t):
-        m1, m2, mv = self.fsp_masses
+        mv, _, _ = self.fsp_masses
 
-        return (2 * mv**2 * q**2 + (-(m1**2) - m2**2 + s + t) ** 2 / 4.0) / (
+        return (2 * mv**2 * q**2 + (q**2 + mv**2 - s) ** 2 / 4.0) / (
             3.0 * mv**2 * q**4
         )
 
-- 
2.43.0


From 5e5cb6009373908f5b1a1c9eeab86e4006ba9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 60/72] fix: invariant-mass distributions of P P V form factors
 had descending bins and integrated to -1/2

---
 hazma/form_factors/vector/_three_body.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 80bf486..8335195 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -983,8 +983,10 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         ]
         invdists = {
             keys[i]: PhaseSpaceDistribution1D(
-                sqrts[i],
-                0.25 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities,
+                sqrts[i][::-1],
+                (
+                    0.5 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities
+                )[::-1],
             )
             for i in range(len(edists))
         }
-- 
2.43.0


From acc70ff2c2d10fd426744a756e43a2419b298e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 61/72] fix: three-body form factor integrals of integer
 energies were truncated to integers

---
 hazma/form_factors/vector/_three_body.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 8335195..9f0e11c 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -246,7 +246,7 @@ class VectorFormFactorPPP(VectorFormFactorThreeBody):
             ]
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > sum(self.fsp_masses)
         res = np.zeros_like(qs)
 
@@ -569,7 +569,7 @@ class VectorFormFactorPPP2(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > m1 + m2 + m3
         res = np.zeros_like(qs)
 
@@ -861,7 +861,7 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > mv + m1 + m2
         res = np.zeros_like(qs)
 
-- 
2.43.0


From 513b9d6dd1ee8cf0206a42b9aaf93bbe905f8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 62/72] fix: four-pion form_factor overwrote the second pion's
 momentum with Q^2

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index 0495e54..fc663bf 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -610,10 +610,10 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = ps[:, 2]
         q4 = ps[:, 3]
 
-        q = np.sum(ps, axis=1)
-        q2 = np.mean(np.sum(ps[0], axis=0))
+        Q = np.sum(ps, axis=1)
+        Q2 = lnorm_sqr(Q)
 
-        ff = self._form_factor(q, q2, q1, q2, q3, q4)
+        ff = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         return ff
 
-- 
2.43.0


From 35cd9c4ba42756cb66e01637f87e72849382080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 63/72] fix: three-body form factors vanish below threshold and
 accept arrays of energies where documented

---
 hazma/form_factors/vector/_pi_k_k.py      | 3 +++
 hazma/form_factors/vector/_pi_pi_etap.py  | 3 +++
 hazma/form_factors/vector/_pi_pi_omega.py | 9 ++++++++-
 hazma/form_factors/vector/_pi_pi_pi0.py   | 3 +++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_k_k.py b/hazma/form_factors/vector/_pi_k_k.py
index 7a29577..841ae3d 100644
--- a/hazma/form_factors/vector/_pi_k_k.py
+++ b/hazma/form_factors/vector/_pi_k_k.py
@@ -206,6 +206,9 @@ class _VectorFormFactorPiKKBase(VectorFormFactorPPP):
         ff: complex or array-like
             The form-factor.
         """
+        if q < sum(self.fsp_masses):
+            return 0.0
+
         qq = 1e-3 * q
         ss = 1e-6 * s
         tt = 1e-6 * t
diff --git a/hazma/form_factors/vector/_pi_pi_etap.py b/hazma/form_factors/vector/_pi_pi_etap.py
index d69e706..f7c2337 100644
--- a/hazma/form_factors/vector/_pi_pi_etap.py
+++ b/hazma/form_factors/vector/_pi_pi_etap.py
@@ -155,6 +155,9 @@ class VectorFormFactorPiPiEtaPrime(VectorFormFactorPPP2):
         gvuu, gvdd: float
             Coupling of vector to up-quarks and down-quarks.
         """
+        if q < sum(self.fsp_masses):
+            return 0.0
+
         qq = q * 1e-3
         ss = s * 1e-6
         ff = self._form_factor(qq, ss, couplings) * 1e-9
diff --git a/hazma/form_factors/vector/_pi_pi_omega.py b/hazma/form_factors/vector/_pi_pi_omega.py
index efdabf8..4953446 100644
--- a/hazma/form_factors/vector/_pi_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_pi_omega.py
@@ -104,7 +104,14 @@ class _VectorFormFactorPiPiOmegaBase(VectorFormFactorPPV):
         Compute the form factor for a vector decaying into two charged pions and
         an eta-prime.
         """
-        return self._form_factor(q=q * 1e-3, couplings=couplings)
+        single = np.isscalar(q)
+        qq = np.atleast_1d(q).astype(np.float64)
+        ff = np.zeros_like(qq, dtype=np.complex128)
+        for i in np.flatnonzero(qq > sum(self.fsp_masses)):
+            ff[i] = self._form_factor(q=qq[i] * 1e-3, couplings=couplings)
+        if single:
+            return ff[0]
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_pi_pi0.py b/hazma/form_factors/vector/_pi_pi_pi0.py
index dbd19ac..e9fa76a 100644
--- a/hazma/form_factors/vector/_pi_pi_pi0.py
+++ b/hazma/form_factors/vector/_pi_pi_pi0.py
@@ -305,6 +305,9 @@ class VectorFormFactorPiPiPi0(VectorFormFactorPPP):
         ff: complex or array-like
             Three pion form-factor.
         """
+        if q < sum(self.fsp_masses):
+            return 0.0
+
         q2 = q**2 * 1e-6
         ss = s * 1e-6
         tt = t * 1e-6
-- 
2.43.0


From c6e51f8adf1cdd171d7f03c750c3eb913b070303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 64/72] fix: temperature derivative of the boson equilibrium
 density had the wrong sign in its mass term

---
 hazma/relic_density/_thermal_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..899186c 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -232,6 +232,7 @@ def neq_deriv(
     else:
         # use sum-over-bessel function representation of neq
         # nbar = x^2 sum_n (\pm 1)^{n+1}/n k_2(nx)
+        # dnbar/dx = -x^2 sum_n (\pm 1)^{n+1} k_1(nx)
         eta = -1 if is_fermion else 1
         xs = mass / Ts
         # perform a reshape is `x` is an array so we properly sum over ns
@@ -240,7 +241,9 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = (
+            -(xs**2) * np.sum(eta ** (ns + 1) * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        )
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From 19da8501107a5ef275bc8ca8a90d88d5c9fd0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 65/72] fix: generic thermal cross section was zero or negative
 beyond x = 25 and lost all accuracy to an absolute tolerance

---
 hazma/relic_density/_thermal_functions.py | 34 +++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index 899186c..3f2da72 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -2,7 +2,7 @@ import os
 from typing import overload
 
 import numpy as np
-from scipy.special import kn, k1
+from scipy.special import kn, k1, k1e, kve
 from scipy.integrate import quad
 from scipy.interpolate import UnivariateSpline
 
@@ -463,26 +463,26 @@ def thermal_cross_section(x: float, model) -> float:
     if hasattr(model, "thermal_cross_section"):
         return model.thermal_cross_section(x)
 
-    # If x is really large, we will get divide by zero errors
-    if x > 300:
-        return 0.0
+    # The Bessel functions are exponentially scaled so that the average can be
+    # computed at any x: with z = 2 + t / x, k1(x z) / kn(2, x)^2 is
+    # k1e(x z) / kve(2, x)^2 times e^{-t}.
+    pf = x / (2.0 * kve(2, x)) ** 2
 
-    pf = x / (2.0 * kn(2, x)) ** 2
-
-    # Commented out code does not seem to work. It give about a two
-    # orders-of-magnitude larger value that `quad`. I've tried `simps`,
-    # `trapz`, `romb` and `lagguass` (after factoring out e^(-x)). All of them
-    # seem to fail?
-    # ss = np.linspace(2.0, 150, 500)
-    # return simps(integrand(ss), ss) * numpf / den
+    def integrand(t):
+        z = 2.0 + t / x
+        sig = model.annihilation_cross_sections(model.mx * z)["total"]
+        kernal = z**2 * (z + 2.0) * (t / x) * k1e(x * z)
+        return sig * kernal * np.exp(-t) / x
 
     return (
         pf
         * quad(
-            thermal_cross_section_integrand,
-            2.0,
-            50.0 / x,
-            args=(x, model),
-            points=[2.0],
+            integrand,
+            0.0,
+            50.0,
+            points=[0.1, 1.0, 5.0, 20.0],
+            epsabs=0.0,
+            epsrel=1e-6,
+            limit=200,
         )[0]
     )
-- 
2.43.0


From 29b2979de2a205e273230244cb378eb2105f9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:40 +0000
Subject: [PATCH 66/72] fix: GeV vector relic density averaged over the same
 closed window and omitted the v v channel

---
 .../_gev/thermal_cross_section.py             | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 37bea26..22146c9 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -1,8 +1,5 @@
 from typing import List, Optional, NamedTuple, Callable
 
-from scipy import special
-from scipy import integrate
-
 from hazma.relic_density import relic_density as rd
 
 TWO_BODY = [
@@ -19,6 +16,7 @@ TWO_BODY = [
     "pi0 phi",
     "eta phi",
     "eta omega",
+    "v v",
 ]
 
 THREE_BODY = [
@@ -41,7 +39,7 @@ class VectorMediatorGeVRelicDensity(NamedTuple):
     """
 
     mx: float
-    thermal_cross_section: Callable
+    annihilation_cross_sections: Callable
 
 
 def _make_final_states(three_body: bool = False, four_body: bool = False) -> List[str]:
@@ -126,24 +124,11 @@ def relic_density(
         if key in final_states
     }
 
-    def acs(cme):
-        return sum(fn(cme) for fn in acs_fns.values())
-
-    def integrand(z, x):
-        sig = acs(self.mx * z)
-        kernal = z**2 * (z**2 - 4.0) * special.k1(x * z)
-        return sig * kernal
-
-    def thermal_cross_section(x):
-        # If x is really large, we will get divide by zero errors
-        if x > 300:
-            return 0.0
-
-        pf = x / (2.0 * special.kn(2, x)) ** 2
-        return pf * integrate.quad(integrand, 2.0, 50.0 / x, points=[2.0], args=(x,))[0]
+    def annihilation_cross_sections(cme):
+        return {"total": sum(fn(cme) for fn in acs_fns.values())}
 
     model = VectorMediatorGeVRelicDensity(
-        mx=self.mx, thermal_cross_section=thermal_cross_section
+        mx=self.mx, annihilation_cross_sections=annihilation_cross_sections
     )
 
     return rd(
-- 
2.43.0


From fc1faed396e1c13613c60e5237af2fe247607759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:02 +0000
Subject: [PATCH 67/72] fix: K_L -> pi0 e e constraint was NaN for mediators
 just above the kinematic limit

---
 hazma/constraint_parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/constraint_parameters.py b/hazma/constraint_parameters.py
index 4283fca..57a1565 100644
--- a/hazma/constraint_parameters.py
+++ b/hazma/constraint_parameters.py
@@ -4,7 +4,9 @@ from hazma.parameters import (
     charged_B_mass as mB,
     charged_kaon_mass as mk,
     charged_pion_mass as mpi,
+    long_kaon_mass as mkl,
     muon_mass as mmu,
+    neutral_pion_mass as mpi0,
     B_width,
     k_width,
     kl_width,
@@ -112,7 +114,7 @@ br_kl_pi0_e_e_ktev = 2.8e-10
 kl_pi0_e_e_obs = RareDecayObs(
     width_bound=(br_kl_pi0_e_e_ktev - br_kl_pi0_e_e_SM) * kl_width,
     r_max=r_vert_ktev,
-    s_bounds=[[140.0**2, 362.7**2]],
+    s_bounds=[[140.0**2, min(362.7, mkl - mpi0) ** 2]],
 )
 
 """Container for information about beam dump experiments.
-- 
2.43.0


From f216c2a42fb5cf928f741b781eb6212ee661f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 68/72] fix: convert_sigmav returned None for its documented
 target unit and disagreed with the conversion constant

---
 hazma/parameters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index 869e064..05f6f26 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -368,13 +368,12 @@ def convert_sigmav(sv, target):
     sv : float
         sv converted to be in the target units.
     """
-    # hbar^2 c^3 in units of MeV^2 cm^3 / s
-    hbar2_c3 = (3.0e10) ** 3 * (6.58e-22) ** 2
-
-    if target == "cm^3 / s":
-        return sv * hbar2_c3
+    if target in ("cm^3/s", "cm^3 / s"):
+        return sv * sv_inv_MeV_to_cm3_per_s
     elif target == "MeV^-2":
-        return sv / hbar2_c3
+        return sv / sv_inv_MeV_to_cm3_per_s
+
+    raise ValueError(f"Invalid target units '{target}'.")
 
 
 def load_interp(rf_name, bounds_error=False, fill_value=0.0):
-- 
2.43.0


From 5f217a8e09991ca74856f8fdda5f38652eaf4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 69/72] fix: tabulated positron spectra rejected lists, ints
 and 0-d energies and returned an array for a scalar below the parent mass

---
 hazma/spectra/_positron/_utils.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index 9d8c7af..9cff102 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -91,24 +91,24 @@ def dnde_positron(
     parent_mass: float,
     interp: interpolate.InterpolatedUnivariateSpline,
 ) -> Union[RealArray, float]:
-    if parent_energy < parent_mass:
-        return np.zeros_like(positron_energy)
-
-    if isinstance(positron_energy, float):
-        return _dnde_positron_point(
-            positron_energy=positron_energy,
-            parent_energy=parent_energy,
-            parent_mass=parent_mass,
-            interp=interp,
+    energies = np.asarray(positron_energy)
+    if energies.dtype.kind not in "biuf":
+        raise TypeError("Positron energies must be a float or a NumPy array.")
+    if energies.ndim > 1:
+        raise ValueError("Positron energies must be 0 or 1-dimensional.")
+
+    if energies.ndim == 0:
+        return float(
+            _dnde_positron_point(
+                positron_energy=float(energies),
+                parent_energy=parent_energy,
+                parent_mass=parent_mass,
+                interp=interp,
+            )
         )
 
-    assert hasattr(positron_energy, "__len__"), (
-        "Invalid type for positron_energy."
-        + f"Expected float or numpy array, got: {type(positron_energy)}"
-    )
-
     return _dnde_positron_array(
-        positron_energy=positron_energy,
+        positron_energy=energies.astype(np.float64),
         parent_energy=parent_energy,
         parent_mass=parent_mass,
         interp=interp,
-- 
2.43.0


From d0ee3de941779a852434daabd14d9159fceac969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 70/72] fix: tabulated neutrino spectra returned one-element
 arrays for a scalar with a flavor and zeros for an unknown flavor

---
 hazma/spectra/_neutrino/_utils.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 46dbd9e..3df8f79 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -90,28 +90,30 @@ def dnde_neutrino(
     flavor: Optional[str] = None,
 ) -> Union[RealArray, float]:
 
-    scalar = np.isscalar(neutrino_energy)
-    enu = np.atleast_1d(neutrino_energy).astype(np.float64)
+    flavors = ("e", "mu", "tau")
+    if flavor is not None and flavor not in flavors:
+        raise ValueError(f"Invalid flavor {flavor}. Use 'e', 'mu' or 'tau'.")
+
+    energies = np.asarray(neutrino_energy)
+    if energies.dtype.kind not in "biuf":
+        raise TypeError("Neutrino energies must be a float or a NumPy array.")
+    if energies.ndim > 1:
+        raise ValueError("Neutrino energies must be 0 or 1-dimensional.")
+
+    scalar = energies.ndim == 0
+    enu = np.atleast_1d(energies).astype(np.float64)
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
 
-    if flavor == "tau":
-        return dnde[2]
-
     for i, flav, inter in [(0, "e", interp_e), (1, "mu", interp_mu)]:
-        if not flavor or flavor == flav:
-            dnde_ = _dnde_neutrino(
+        if flavor is None or flavor == flav:
+            dnde[i] = _dnde_neutrino(
                 neutrino_energy=enu,
                 parent_energy=parent_energy,
                 parent_mass=parent_mass,
                 interp=inter,
             )
 
-            if flavor == flav:
-                return dnde_
-            else:
-                dnde[i] = dnde_
-
     if scalar:
-        return dnde[..., 0]
+        dnde = dnde[..., 0]
 
-    return dnde
+    return dnde if flavor is None else dnde[flavors.index(flavor)]
-- 
2.43.0


From babaef469ef1d2d392b433ec5556b01c78ea7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 71/72] fix: total_neutrino_spectrum of the GeV vector models
 returned the channel dictionary instead of the total

---
 hazma/vector_mediator/_gev/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 559677a..8211c50 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1076,8 +1076,9 @@ class VectorMediatorGeV(TheoryAnn):
         """
 
         if hasattr(energies, "__len__"):
-            return self.neutrino_spectra(energies, e_cm, flavor=flavor)
-        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+            return self.neutrino_spectra(energies, e_cm, flavor=flavor)["total"]
+        total = self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+        return np.asarray(total["total"]).item()
 
 
 class KineticMixingGeV(VectorMediatorGeV):
-- 
2.43.0


From 11bf1964a2066458b521e5c7d7e302d9798701e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 72/72] fix: v v spectra of the GeV vector models depended on
 the other energies of the call

---
 hazma/vector_mediator/_gev/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index 7b5a711..2a0286b 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -96,7 +96,7 @@ def channel_open(
     return cme > sum(map(lambda s: mass_dict[s], states))
 
 
-def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, npts=500):
+def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, step=0.01):
     """Boost the spectrum of a mediator decaying at rest.
 
     Parameters
@@ -112,8 +112,10 @@ def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, npts=500):
         Velocity of the mediator.
     mass: float
         Mass of the product.
-    npts: int
-        Number of energies at which the rest-frame spectrum is sampled.
+    step: float
+        Distance in rapidity of the energies at which the rest-frame spectrum
+        is sampled. They are counted from the endpoint, so that a result does
+        not depend on the other energies of the call.
 
     Returns
     -------
@@ -137,7 +139,8 @@ def boost_mediator_decay(dnde_rest, energies, mv, beta, mass=0.0, npts=500):
         lower = rapidity(gamma * (es[mask] - beta * k))
         eta_max = rapidity(emax)
         upper = np.minimum(rapidity(gamma * (es[mask] + beta * k)), eta_max)
-        eta = np.linspace(min(lower.min(), eta_max - 1.0), eta_max, npts)
+        count = int(np.ceil(max(eta_max - lower.min(), 1.0) / step)) + 1
+        eta = eta_max - step * np.arange(count, -1, -1)
         rest = dnde_rest(np.exp(eta) if mass == 0.0 else mass * np.cosh(eta))
         spline = interpolate.InterpolatedUnivariateSpline(eta, rest, k=1)
         dnde[mask] = [
-- 
2.43.0

