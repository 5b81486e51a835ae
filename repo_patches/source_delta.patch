From 3455004c6a2b25df702995678c2a777e9b80a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 01/19] fix: fourth derivative of potentials with a feature
 (d4V ignored the feature)

---
 primpy/potentials.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..c6b350f 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = -a/b**8 * (3*b**4 - 6*b**2*(x-x0)**2 + (x-x0)**4) * exp(...)`."""
+        return (-a / b**8 * (3 * b**4 - 6 * b**2 * (x - x0)**2 + (x - x0)**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * (2*tanh(...) - 5*tanh(...)**3 + 3*tanh(...)**5)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * (2 * tanh - 5 * tanh**3 + 3 * tanh**5)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From edee19f112402e5bb7c6c0ef840ae5432b29ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 02/19] fix: third time derivative of the inflaton in curved
 universes (get_d3phi)

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 67db3200be5f17a731c033356a5001722641dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 03/19] fix: InflationStartWarning always claimed that the
 inflation event was not tracked

---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From c862af530af9023213cec60b0a15f3fba64b7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 04/19] fix: start of inflation was not recognised from a
 terminal inflation event

---
 primpy/inflation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..58eb3c5 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From 45f9c554b4c5093e9eda1d3c51548d52fcf54c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 05/19] fix: root searches for initial conditions failed on
 histories without an end of inflation

---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5abc77f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -212,7 +212,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -293,12 +293,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From 4cf1bfb320b3593f6cc0ddbe6704af06a23dca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 06/19] fix: initial conditions with vanishing Hubble parameter
 are not rejected

---
 primpy/initialconditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 5abc77f..c18d506 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -45,9 +45,9 @@ class SlowRollIC(InitialConditions):
             self.N_i = kwargs.pop('N_i')
             self.ic_input_param = {'N_i': self.N_i}
             self.aH2_i = self.V_i / 3 * np.exp(2 * self.N_i) - equations.K
-            if self.aH2_i < 0:
+            if self.aH2_i <= 0:
                 raise InflationStartError(
-                    "V_i / 3 * exp(2 N_i) - 1 = %s < 0 but needs to be > 0. Increase either N_i "
+                    "V_i / 3 * exp(2 N_i) - 1 = %s <= 0 but needs to be > 0. Increase either N_i "
                     "or phi_i." % self.aH2_i, geometry="closed")
             self.aH_i = np.sqrt(self.V_i / 3 * np.exp(2 * self.N_i) - equations.K)
             self.Omega_Ki = -equations.K / self.aH2_i
@@ -117,9 +117,9 @@ class InflationStartIC(InitialConditions):
                                              "The other will be inferred."
             self.N_i = kwargs.pop('N_i')
             self.ic_input_param = {'N_i': self.N_i}
-            if self.V_i / 2 * np.exp(2 * self.N_i) - equations.K < 0:
+            if self.V_i / 2 * np.exp(2 * self.N_i) - equations.K <= 0:
                 raise InflationStartError(
-                    "V_i / 2 * exp(2 N_i) - 1 = %s < 0 but needs to be > 0. Increase either N_i "
+                    "V_i / 2 * exp(2 N_i) - 1 = %s <= 0 but needs to be > 0. Increase either N_i "
                     "or phi_i." % (self.V_i / 2 * np.exp(2 * self.N_i) - 1), geometry="closed")
             self.aH_i = np.sqrt(self.V_i / 2 * np.exp(2 * self.N_i) - equations.K)
             self.Omega_Ki = -equations.K / self.aH_i**2
-- 
2.43.0


From 9ab605769af9bd4eda348b10ebe081ff10bb36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 07/19] fix: duration of reheating from w_reh and rho_reh_GeV
 in curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 58eb3c5..9e7e7eb 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -806,7 +806,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From bf24177367acab322acf6e00208d20bb16b67631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 08/19] fix: ARBDS slow-roll expansion was not evaluated
 relative to its own pivot scale

---
 primpy/inflation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9e7e7eb..b6ab910 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1353,7 +1353,8 @@ class InflationEquations(Equations, ABC):
             at3_3 = 1/6 * (-8 * e1**3 + 12 * e1**2 * e2 - 2 * e1 * e2**2 - 2 * e1 * e2 * e3)
 
             # order 1
-            log_k_kstar = sol.logk - np.log(K_STAR)
+            # expansion is around the scale with -k*eta=1 at `_N_cross`, whereas K_STAR has k=aH
+            log_k_kstar = sol.logk - np.log(K_STAR) + e1 + e1**2 / 2 + e1 * e2
             P_s = Ps0 * (as0_1 + as1_1 * log_k_kstar)
             P_t = Pt0 * (at0_1 + at1_1 * log_k_kstar)
             mask = (P_s > 0) & (P_t > 0)
-- 
2.43.0


From 1b6a1c6dab4d384c5e6cee0b276726dda05cdfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 09/19] fix: approximate spectra of a previous calibration were
 returned after recalibrating

---
 primpy/inflation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index b6ab910..5d67478 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -864,6 +864,10 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # forget approximate primordial power spectra from a previous calibration
+            for key in [key for key in sol if key.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                del sol[key]
+
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1459,6 +1463,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_s_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1513,6 +1519,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_t_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
-- 
2.43.0


From aa0b6dfd55c6b73350fc6dedfa2ac11e58e324eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 10/19] fix: conformal time ratio of flat universes ignored the
 calibration of the scale factor

---
 primpy/bigbang.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..c0ba1ec 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -286,10 +286,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    # calibrating the scale factor (only possible for flat universes) rescales conformal time
+    conformal_time_before = (eta_end - eta_beg) * np.exp(-b_forward.delta_N_calib)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0


From 17c71372be13068eb54e6f75e852465238f0aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 11/19] fix: drop_closed_large_scales only dropped the spectrum
 of the RST vacuum

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..d358686 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -125,7 +125,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From 81866450bfb0cba0addf07d31c3f159259d403e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 12/19] fix: mode evolution stopped before freeze-out for modes
 that start outside and then enter the horizon

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index d358686..08ef5be 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -101,7 +101,8 @@ def solve_oscode(background, k,
             # therefore `idx_end` will be set equal (or close to equal) to `idx_beg`. These modes
             # nonetheless need to be evolved a bit past inflationstart before they properly freeze
             # in. Hence, we additionally require that from `beg` to `end` at least 10 e-folds pass:
-            idx_end = np.argwhere(b._N - b._N[idx_beg] > 10).ravel()[0]
+            idx_end = np.argwhere((b._logaH - np.log(ki) > np.log(fac_end))
+                                  & (b._N - b._N[idx_beg] > 10)).ravel()[0]
         if b.independent_variable == 't':
             p = PerturbationT(background=b, k=ki, vacuum=vacuum,
                               idx_beg=idx_beg, idx_end=idx_end, num_eval=num_eval)
-- 
2.43.0


From 7240d01a3235e76a270ee941958b563fb0a1aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 13/19] fix: SlowRollPPS rejected reheating energies above 76%
 of the scale of the end of inflation

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From 13cf8732daa134f8ac6befb23bedea712de16dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 14/19] fix: SlowRollPPS applied the bound on the reheating
 energy to trial potentials

---
 cobaya_wrapper/slowroll_pps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index 498b0d4..06de4e0 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,11 +65,6 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
-                            + b.potential.V(b.phi[b.inflation_mask][-1]))
-                           * mp_GeV / lp_iGeV**3)**(1/4)
-            if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
-                raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
             with warnings.catch_warnings(action='ignore', category=PrimpyWarning):
                 if w_reh is not None and rho_reh_GeV is not None:
                     b.calibrate_scale_factor(calibration_method='reheating',
@@ -90,6 +85,11 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                 Lambda = (A_s / b.A_s)**(1 / 4) * Lambda
             else:
                 raise PrimpyError("`A_s` shooting failed.")
+        rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                        + b.potential.V(b.phi[b.inflation_mask][-1]))
+                       * mp_GeV / lp_iGeV**3)**(1/4)
+        if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
+            raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
         if b.w_reh <= -1/3 or b.w_reh >= 1 or b.DeltaN_reh < 0 or b.N_reh > b.N0:
             raise PrimpyError(f"Unrealistic reheating scenario with w_reh={b.w_reh}, "
                               f"DeltaN_reh={b.DeltaN_reh}, N_star={b.N_star}, "
-- 
2.43.0


From 37dfae1eeacd247a373b09a0ae581f6ce27892bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 15/19] fix: feature spectra failed with a tensor tilt but
 without its running

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From c79e547e76168de143a824d5237b2c0add4352f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 16/19] fix: oscillation spectra failed without oscillations
 (default amplitude)

---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 98d73d8..321e4f1 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', None if A_log else 0)
+        p_log = params_values_dict.get('p_log', None if A_log else 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', None if A_lin else 0)
+        p_lin = params_values_dict.get('p_lin', None if A_lin else 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From a6d89b8b2f8725ac4a9727629eae2c6752e7cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:51 +0000
Subject: [PATCH 17/19] fix: third-order CGS spectra: evaluate ln(-aH*tau) at
 horizon crossing to the order which enters

---
 primpy/inflation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 5d67478..0888cd4 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -946,7 +946,8 @@ class InflationEquations(Equations, ABC):
             # Choe, Gong & Stewart (2004), eq. (60)
             Ps0 = H**2 / (8 * pi**2 * e1)
             alpha = 2 - np.log(2) - np.euler_gamma
-            astar = alpha - e1  # from Choe, Gong & Stewart (2004) just after eq. (60)
+            # alpha - ln(-aH*tau) through third order, Choe, Gong & Stewart (2004) after eq. (60)
+            astar = alpha - e1 - 5 / 2 * e1**2 - 2 * e1 * d1
             order1_s = (1 + (4 * astar - 2) * e1 + 2 * astar * d1 + (-astar**2 + pi**2 / 12) * d2
                         + (1 / 3 * astar**3 - pi**2 / 12 * astar + 4 / 3 - 2 / 3 * zeta(3)) * d3)
             # (slight differences between SG and CGS in 2nd order numeric coefficients)
-- 
2.43.0


From d1174e6a52fec44ac12da58aac8d563b29278352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 18/19] fix: zeta(3) terms of the third-order ARBDS spectra

---
 primpy/inflation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 0888cd4..9cb0825 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1294,10 +1294,12 @@ class InflationEquations(Equations, ABC):
             as0_3 = (
                 - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
                 + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2
+                   +100*zeta(3)) / 24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*zeta(3)) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2
+                   -8*zeta(3)) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1340,7 +1342,7 @@ class InflationEquations(Equations, ABC):
                 - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * zeta(3)) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 72034c72f87f829c9bef060cddeb19b8f043df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 19/19] fix: curvature of monomial potentials at their minimum
 (0/0)

---
 primpy/potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index c6b350f..9501aa8 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -295,7 +295,7 @@ class MonomialPotential(InflationaryPotential):
         return self.Lambda**4 * self.p * np.abs(phi)**(self.p - 1) * np.sign(phi)
 
     def d2V(self, phi):  # noqa: D102
-        return self.Lambda**4 * self.p * (self.p - 1) * np.abs(phi)**self.p / phi**2
+        return self.Lambda**4 * self.p * (self.p - 1) * np.abs(phi)**(self.p - 2)
 
     def d3V(self, phi):  # noqa: D102
         p = self.p
-- 
2.43.0

