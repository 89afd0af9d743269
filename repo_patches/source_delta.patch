From 552d434a4debd89870e0242fa9adc39692d9775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:40 +0000
Subject: [PATCH 01/37] fix: accept materials and trap sources spanning several
 subdomains (list ids)

---
 festim/__init__.py                  |  1 +
 festim/concentration/mobile.py      |  5 +++--
 festim/concentration/theta.py       | 12 ++++++------
 festim/concentration/traps/trap.py  | 17 ++++++++++++-----
 festim/exports/trap_density_xdmf.py |  3 ++-
 festim/helpers.py                   |  8 ++++++++
 festim/materials/materials.py       |  4 ++--
 7 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/festim/__init__.py b/festim/__init__.py
index b22e350..d91f1f5 100644
--- a/festim/__init__.py
+++ b/festim/__init__.py
@@ -27,6 +27,7 @@ from .helpers import (
     as_constant,
     as_expression,
     as_constant_or_expression,
+    as_subdomain_id,
     festim_print,
 )
 
diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..6e748d0 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -5,6 +5,7 @@ from festim import (
     RadioactiveDecay,
     SurfaceKinetics,
     festim_print,
+    as_subdomain_id,
 )
 from fenics import *
 
@@ -162,14 +163,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..5daab70 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,4 @@
-from festim import Mobile, k_B
+from festim import Mobile, k_B, as_subdomain_id
 import fenics as f
 
 
@@ -32,11 +32,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(as_subdomain_id(mat.id))
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -113,10 +113,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(as_subdomain_id(mat.id))
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..d303ec8 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -1,4 +1,11 @@
-from festim import Concentration, k_B, Material, Theta, RadioactiveDecay
+from festim import (
+    Concentration,
+    k_B,
+    Material,
+    Theta,
+    RadioactiveDecay,
+    as_subdomain_id,
+)
 from fenics import *
 import sympy as sp
 
@@ -152,7 +159,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(as_subdomain_id(mat.id))
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +193,10 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(as_subdomain_id(mat.id))
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(as_subdomain_id(mat.id))
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +212,7 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            self.F_source = -source.value * self.test_function * dx(as_subdomain_id(source.volume))
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..86221e4 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -1,4 +1,5 @@
 from festim.exports.xdmf_export import XDMFExport
+from festim import as_subdomain_id
 import fenics as f
 
 
@@ -29,7 +30,7 @@ class TrapDensityXDMF(XDMFExport):
         F = f.inner(u, v) * dx
 
         for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/helpers.py b/festim/helpers.py
index f790050..fbe6d04 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -44,6 +44,14 @@ def as_constant_or_expression(val):
         return Expression(expr_ccode, degree=2, t=0)
 
 
+def as_subdomain_id(subdomains):
+    """Converts subdomain id(s) to a format accepted by fenics.Measure
+    (an int, or a tuple when several subdomains are given as a list)"""
+    if isinstance(subdomains, list):
+        return tuple(subdomains)
+    return subdomains
+
+
 def kJmol_to_eV(energy):
     """Converts an energy value given in units kJ mol^{-1} to eV
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..9f12bf7 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -299,8 +299,8 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(festim.as_subdomain_id(mat.id))
+            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(festim.as_subdomain_id(mat.id))
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From b7c53df2b0887a7134f27d3b26137576acc36c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:12 +0000
Subject: [PATCH 02/37] fix: a milestone reached up to round-off no longer
 hides the following ones

---
 festim/stepsize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..cbb4dbd 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -134,6 +134,8 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 6647a6018c5f1494f940083308b69b6949c0758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 03/37] fix: the first step no longer jumps over milestones,
 TXTExport times or final_time

---
 festim/generic_simulation.py | 5 +++++
 festim/stepsize.py           | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..6dac96b 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -475,6 +475,11 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the initial stepsize mustn't jump over a milestone or final_time
+        self.dt.adapt_to_next_milestone(self.t)
+        if self.t + float(self.dt.value) > self.settings.final_time:
+            self.dt.value.assign(self.settings.final_time - self.t)
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
diff --git a/festim/stepsize.py b/festim/stepsize.py
index cbb4dbd..47bc862 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -113,7 +113,14 @@ class Stepsize:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
 
-        # adapt for next milestone
+        self.adapt_to_next_milestone(t)
+
+    def adapt_to_next_milestone(self, t):
+        """Shortens the stepsize so that the next milestone is not jumped over
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone and not np.isclose(
-- 
2.43.0


From b45e9c8e175f78ec1036d785bd2f435eb7955ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 04/37] fix: a failed solve shrinks the adaptive stepsize, and
 raises an error when it is fixed

---
 festim/h_transport_problem.py | 2 ++
 festim/stepsize.py            | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..6366559 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,8 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                raise ValueError("Solver diverged and the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 47bc862..a7fb960 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From 8ed621fb3b515aa2b3fc5869f3278452c9a725a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 05/37] fix: transient heat transfer keeps the previous
 temperature for chemical potential conservation

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..a0f18a0 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,7 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +261,7 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +274,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 3e610af000b45b23c7e46824f124bfe3bca0d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 06/37] fix: a step retried with a smaller stepsize is
 integrated and labelled at the time it reaches

---
 festim/generic_simulation.py  |  2 +-
 festim/h_transport_problem.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 6dac96b..d4557f7 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -513,7 +513,7 @@ class Simulation:
         # update temperature
         self.T.update(self.t)
         # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        self.t = self.h_transport_problem.update(self.t, self.dt)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 6366559..3d3aa62 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -330,6 +330,10 @@ class HTransportProblem:
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            float: the time that was reached (s), it is less than t if the
+                stepsize had to be reduced for the solver to converge
         """
         festim.update_expressions(self.expressions, t)
 
@@ -341,8 +345,16 @@ class HTransportProblem:
             nb_it, converged = self.solve_once()
             if not converged and dt.adaptive_stepsize is None:
                 raise ValueError("Solver diverged and the stepsize is not adaptive.")
+            if not converged:
+                # go back in time and retry with a smaller stepsize
+                t -= float(dt.value)
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
+            if not converged:
+                t += float(dt.value)
+                self.T.T.assign(self.T.T_n)
+                self.T.update(t)
+                festim.update_expressions(self.expressions, t)
 
         # Update previous solutions
         self.update_previous_solutions()
@@ -350,6 +362,8 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        return t
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From 242c4cce8a9eb7a42303d8c5097672846a7ef871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 07/37] fix: extrinsic trap densities are integrated with the
 stepsize of the current step

---
 festim/h_transport_problem.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 3d3aa62..ea51ccb 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -345,7 +345,12 @@ class HTransportProblem:
             nb_it, converged = self.solve_once()
             if not converged and dt.adaptive_stepsize is None:
                 raise ValueError("Solver diverged and the stepsize is not adaptive.")
-            if not converged:
+            if converged:
+                # Update previous solutions
+                self.update_previous_solutions()
+                # Solve extrinsic traps formulation with the current stepsize
+                self.traps.solve_extrinsic_traps()
+            else:
                 # go back in time and retry with a smaller stepsize
                 t -= float(dt.value)
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
@@ -356,12 +361,6 @@ class HTransportProblem:
                 self.T.update(t)
                 festim.update_expressions(self.expressions, t)
 
-        # Update previous solutions
-        self.update_previous_solutions()
-
-        # Solve extrinsic traps formulation
-        self.traps.solve_extrinsic_traps()
-
         return t
 
     def solve_once(self):
-- 
2.43.0


From f36f42ca5cafd1a7cc8a3ac1a27a0b0461484eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 08/37] fix: time-dependent parameters of extrinsic traps are
 updated with time

---
 festim/concentration/traps/extrinsic_trap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..4e2e0d0 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import Expression, MPI, NewtonSolver, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -52,6 +52,8 @@ class ExtrinsicTrapBase(Trap):
         self.newton_solver = None
         for name, val in kwargs.items():
             setattr(self, name, as_constant_or_expression(val))
+            if isinstance(getattr(self, name), (Expression, UserExpression)):
+                self.sub_expressions.append(getattr(self, name))
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From b649b7b5887d3f2a67b57e53410380f38f1560c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 09/37] fix: flux boundary conditions given with field="0" are
 no longer ignored

---
 festim/boundary_conditions/boundary_condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..d4d6f16 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -13,7 +13,7 @@ class BoundaryCondition:
             surfaces = [surfaces]
         self.surfaces = surfaces
 
-        if field == "solute":
+        if field in ["solute", "0"]:
             self.field = 0
         else:
             self.field = field
-- 
2.43.0


From 24f34753a8e346cdc568019c5b9d391acd0ed06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:13 +0000
Subject: [PATCH 10/37] fix: initial conditions and sources address traps by
 their id

---
 festim/generic_simulation.py  | 5 +++--
 festim/h_transport_problem.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index d4557f7..69e0c60 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -216,8 +216,9 @@ class Simulation:
             "T": self.T,
         }
         for i, trap in enumerate(self.traps, 1):
-            field_to_object[i] = trap
-            field_to_object[str(i)] = trap
+            trap_id = i if trap.id is None else trap.id
+            field_to_object[trap_id] = trap
+            field_to_object[str(trap_id)] = trap
 
         # set sources
         for source in self.sources:
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index ea51ccb..f20e6b7 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From 1da696f1d5e049bc06c6d0778c01c4f46f3c7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 11/37] fix: surface extrema can be used in a simulation and
 look at the facets of the surface

---
 .../derived_quantities/derived_quantities.py       |  5 +++++
 .../exports/derived_quantities/derived_quantity.py | 14 ++++++++++++++
 .../exports/derived_quantities/maximum_surface.py  |  5 +++--
 .../exports/derived_quantities/minimum_surface.py  |  5 +++--
 festim/exports/exports.py                          |  8 +++++++-
 5 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..547909d 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -1,6 +1,8 @@
 from festim import (
     MinimumVolume,
     MaximumVolume,
+    MinimumSurface,
+    MaximumSurface,
     DerivedQuantity,
 )
 import fenics as f
@@ -106,6 +108,7 @@ class DerivedQuantities(list):
 
     def assign_measures_to_quantities(self, dx, ds):
         self.volume_markers = dx.subdomain_data()
+        self.surface_markers = ds.subdomain_data()
         for quantity in self:
             quantity.dx = dx
             quantity.ds = ds
@@ -129,6 +132,8 @@ class DerivedQuantities(list):
         for quantity in self:
             if isinstance(quantity, (MaximumVolume, MinimumVolume)):
                 value = quantity.compute(self.volume_markers)
+            elif isinstance(quantity, (MaximumSurface, MinimumSurface)):
+                value = quantity.compute(self.surface_markers)
             else:
                 value = quantity.compute()
 
diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index 9df98d8..63dbccf 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -1,4 +1,6 @@
 from festim import Export
+import fenics as f
+import numpy as np
 
 
 class DerivedQuantity(Export):
@@ -73,6 +75,18 @@ class VolumeQuantity(DerivedQuantity):
         self._volume = value
 
 
+def entity_dofs(dofmap, entity):
+    """Returns the dofs (CG1 or DG1) of a mesh entity (a facet or a cell)"""
+    tdim = entity.mesh().topology().dim()
+    if entity.dim() == tdim:
+        return dofmap.cell_dofs(entity.index())
+    entity.mesh().init(entity.dim(), tdim)
+    cell = f.Cell(entity.mesh(), entity.entities(tdim)[0])
+    vertices = [vertex.index() for vertex in f.vertices(entity)]
+    on_entity = np.isin(cell.entities(0), vertices)
+    return dofmap.cell_dofs(cell.index())[on_entity]
+
+
 class SurfaceQuantity(DerivedQuantity):
     """DerivedQuantity relative to a surface
 
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index e83bc0e..faa676e 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,4 +1,5 @@
 from festim import SurfaceQuantity
+from festim.exports.derived_quantities.derived_quantity import entity_dofs
 import fenics as f
 import numpy as np
 
@@ -52,8 +53,8 @@ class MaximumSurface(SurfaceQuantity):
         subd_dofs = np.unique(
             np.hstack(
                 [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
+                    entity_dofs(dm, entity)
+                    for entity in f.SubsetIterator(surface_markers, self.surface)
                 ]
             )
         )
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index ec81482..a19eb52 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,4 +1,5 @@
 from festim import SurfaceQuantity
+from festim.exports.derived_quantities.derived_quantity import entity_dofs
 import fenics as f
 import numpy as np
 
@@ -52,8 +53,8 @@ class MinimumSurface(SurfaceQuantity):
         subd_dofs = np.unique(
             np.hstack(
                 [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
+                    entity_dofs(dm, entity)
+                    for entity in f.SubsetIterator(surface_markers, self.surface)
                 ]
             )
         )
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..b5fc94e 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -57,7 +57,13 @@ class Exports(list):
                     # check if function has to be projected
                     for quantity in export:
                         if isinstance(
-                            quantity, (festim.MaximumVolume, festim.MinimumVolume)
+                            quantity,
+                            (
+                                festim.MaximumVolume,
+                                festim.MinimumVolume,
+                                festim.MaximumSurface,
+                                festim.MinimumSurface,
+                            ),
                         ):
                             if not isinstance(
                                 label_to_function[quantity.field], f.Function
-- 
2.43.0


From 2bc0ac2ae504112b444f4151763dbfdf2c7615ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 12/37] fix: Dirichlet conditions on traps accept the field as
 a string

---
 festim/boundary_conditions/dirichlets/dirichlet_bc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/dirichlet_bc.py b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
index 3bc72c5..7e971ff 100644
--- a/festim/boundary_conditions/dirichlets/dirichlet_bc.py
+++ b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
@@ -86,7 +86,7 @@ class DirichletBC(BoundaryCondition):
         if V.num_sub_spaces() == 0:
             funspace = V
         else:  # if only one field, use subspace
-            funspace = V.sub(self.field)
+            funspace = V.sub(int(self.field))
         for surface in self.surfaces:
             bci = f.DirichletBC(funspace, self.expression, surface_markers, surface)
             self.dirichlet_bc.append(bci)
-- 
2.43.0


From fecb11d70a11891895b78500310c5282c6a9ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 13/37] fix: TXTExport and DerivedQuantities accept a filename
 without a directory

---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 547909d..605db28 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -152,7 +152,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From d02af514de85595366900456e8c1bf8a9ec57a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 14/37] fix: XDMFExport mode 'last' exports steady state
 solutions

---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..37fa7af 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # in steady state (final_time is None) there is only one step
+            return final_time is None or np.isclose(t, final_time, atol=0)
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From 50c97e8c4d8411e95eed3f0d5a5fc7239c44a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 15/37] fix: TXTExport handles materials with several pairs of
 borders

---
 festim/exports/txt_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..7b5ff81 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,8 +154,8 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
-                        borders.append(border)
+                    # borders can be nested (several subdomains)
+                    borders += np.ravel(material.borders).tolist()
             borders = np.unique(borders)
 
             # Find indices of the closest duplicates to interfaces
-- 
2.43.0


From d70acabe2ac784806e2d80ea541b7d0a6546e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 16/37] fix: a transient heat transfer problem can be
 initialised again

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index a0f18a0..39ed829 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                expression_T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(expression_T_ini, V))
             self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
-- 
2.43.0


From 0f9a150946bcdc324eff04e2b519f6885f518446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 17/37] fix: running a simulation again overwrites its XDMF
 exports and restarts the export counter

---
 festim/generic_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 69e0c60..43fea98 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -386,7 +386,12 @@ class Simulation:
 
         self.h_transport_problem.initialise(self.mesh, self.materials, self.dt)
 
+        self.exports.nb_iterations = 0
         for export in self.exports:
+            if isinstance(export, festim.XDMFExport) and export.append:
+                # the file of a previous run must be overwritten
+                export.append = False
+                export.define_xdmf_file()
             if isinstance(export, festim.DerivedQuantities):
                 for q in export:
                     # raise warning if the derived quantities don't match the type of mesh
-- 
2.43.0


From 40cd57fed67937ebc044daf28bdc5383d0915273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:48 +0000
Subject: [PATCH 18/37] fix: TrapDensityXDMF writes the density of each
 material of the trap

---
 festim/exports/trap_density_xdmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 86221e4..606e248 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -29,8 +29,10 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
+        for i, mat in enumerate(self.trap.materials):
+            # the density is either common to all materials or given for each
+            density = self.trap.density[i if len(self.trap.density) > 1 else 0]
+            F -= f.inner(density, v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From a34f1bfe0cca555e6c47a88778c0dea3b9985708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:48 +0000
Subject: [PATCH 19/37] fix: surface kinetics use the previous concentration
 with chemical potential conservation

---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index 6e748d0..171506f 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -220,7 +220,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(T),
                             self.test_function,
                             T,
                             ds,
@@ -243,3 +243,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self, T):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 5daab70..e1bd102 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B, as_subdomain_id
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,23 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self, T):
+        """Returns the hydrogen concentration at the previous timestep
+
+        Args:
+            T (festim.Temperature): the temperature with attribute T_n
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        S_n = ArheniusCoeff(
+            self.materials, self.volume_markers, T.T_n, "S_0", "E_S", degree=2
+        )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From fecd62b78cbf33f50c8894ce6ad2ccf55354c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:24 +0000
Subject: [PATCH 20/37] fix: initial guess of the chemical potential is set in
 multi-species problems

---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index f20e6b7..57695e2 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -228,7 +228,7 @@ class HTransportProblem:
             initial_guess = project(
                 self.mobile.previous_solution + Constant(DOLFIN_EPS), functionspace
             )
-            self.mobile.solution.assign(initial_guess)
+            assign(self.mobile.solution, initial_guess)
         # this is needed to correctly create the formulation
         # TODO: write a test for this?
         if self.V.num_sub_spaces() != 0:
-- 
2.43.0


From a672b18373cc3dddad411f3df0632d78e6ab0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:51 +0000
Subject: [PATCH 21/37] fix: retention can be integrated in cylindrical and
 spherical coordinates

---
 festim/exports/derived_quantities/average_surface.py | 2 +-
 festim/exports/derived_quantities/average_volume.py  | 4 ++--
 festim/exports/derived_quantities/total_surface.py   | 4 ++--
 festim/exports/derived_quantities/total_volume.py    | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/festim/exports/derived_quantities/average_surface.py b/festim/exports/derived_quantities/average_surface.py
index c56e0d7..2d19a26 100644
--- a/festim/exports/derived_quantities/average_surface.py
+++ b/festim/exports/derived_quantities/average_surface.py
@@ -90,7 +90,7 @@ class AverageSurfaceCylindrical(AverageSurface):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
diff --git a/festim/exports/derived_quantities/average_volume.py b/festim/exports/derived_quantities/average_volume.py
index 6428c0e..5a9b185 100644
--- a/festim/exports/derived_quantities/average_volume.py
+++ b/festim/exports/derived_quantities/average_volume.py
@@ -89,7 +89,7 @@ class AverageVolumeCylindrical(AverageVolume):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
@@ -132,7 +132,7 @@ class AverageVolumeSpherical(AverageVolume):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
diff --git a/festim/exports/derived_quantities/total_surface.py b/festim/exports/derived_quantities/total_surface.py
index db8c1c7..f9e644c 100644
--- a/festim/exports/derived_quantities/total_surface.py
+++ b/festim/exports/derived_quantities/total_surface.py
@@ -126,7 +126,7 @@ class TotalSurfaceCylindrical(TotalSurface):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
@@ -210,7 +210,7 @@ class TotalSurfaceSpherical(TotalSurface):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
diff --git a/festim/exports/derived_quantities/total_volume.py b/festim/exports/derived_quantities/total_volume.py
index b197ca3..a794fbd 100644
--- a/festim/exports/derived_quantities/total_volume.py
+++ b/festim/exports/derived_quantities/total_volume.py
@@ -125,7 +125,7 @@ class TotalVolumeCylindrical(TotalVolume):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
@@ -207,7 +207,7 @@ class TotalVolumeSpherical(TotalVolume):
 
         if self.r is None:
             mesh = (
-                self.function.function_space().mesh()
+                self.function.ufl_domain().ufl_cargo()
             )  # get the mesh from the function
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
-- 
2.43.0


From 926da35f4bf1d156214850d40cb8e1b8d3c09fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:45 +0000
Subject: [PATCH 22/37] fix: CustomDirichlet can be used with chemical
 potential conservation

---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From 9d43f854384ec3fa3c7675e7e0dc22f506f8dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:08 +0000
Subject: [PATCH 23/37] fix: the first step is limited by max_stepsize

---
 festim/generic_simulation.py |  4 +++-
 festim/stepsize.py           | 14 +++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 43fea98..5470efd 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -481,7 +481,9 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
-        # the initial stepsize mustn't jump over a milestone or final_time
+        # the initial stepsize mustn't exceed max_stepsize, nor jump over a
+        # milestone or final_time
+        self.dt.cap_to_max_stepsize(self.t)
         self.dt.adapt_to_next_milestone(self.t)
         if self.t + float(self.dt.value) > self.settings.final_time:
             self.dt.value.assign(self.settings.final_time - self.t)
diff --git a/festim/stepsize.py b/festim/stepsize.py
index a7fb960..008eb8b 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -93,7 +93,6 @@ class Stepsize:
         if self.adaptive_stepsize:
             change_ratio = self.adaptive_stepsize["stepsize_change_ratio"]
             dt_min = self.adaptive_stepsize["dt_min"]
-            max_stepsize = self.adaptive_stepsize["max_stepsize"]
 
             if not converged:
                 if dt_min is None:
@@ -107,14 +106,23 @@ class Stepsize:
             else:
                 self.value.assign(float(self.value) / change_ratio)
 
+        self.cap_to_max_stepsize(t)
+        self.adapt_to_next_milestone(t)
+
+    def cap_to_max_stepsize(self, t):
+        """Limits the stepsize to max_stepsize
+
+        Args:
+            t (float): current time.
+        """
+        if self.adaptive_stepsize:
+            max_stepsize = self.adaptive_stepsize["max_stepsize"]
             if callable(max_stepsize):
                 max_stepsize = max_stepsize(t)
             if max_stepsize is not None:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
 
-        self.adapt_to_next_milestone(t)
-
     def adapt_to_next_milestone(self, t):
         """Shortens the stepsize so that the next milestone is not jumped over
 
-- 
2.43.0


From 189e481c858b1fc91d3349399da4017e9036042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 24/37] fix: a constant stepsize is restored after a milestone

---
 festim/stepsize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 008eb8b..ccf4fdf 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -105,6 +105,9 @@ class Stepsize:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
+        else:
+            # a constant stepsize may have been shortened to reach a milestone
+            self.value.assign(self.initial_value)
 
         self.cap_to_max_stepsize(t)
         self.adapt_to_next_milestone(t)
-- 
2.43.0


From df62f84f8f1c7db2febe994880788b807a6c1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 25/37] fix: checkpoint exports of a field of a mixed function
 store only its own dofs

Written as a view of the mixed vector, the field was read back (restart from a
checkpoint) with the value of another field at one vertex.
---
 festim/exports/xdmf_export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 37fa7af..e7d83fe 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -131,8 +131,15 @@ class XDMFExport(Export):
                 msg += "https://github.com/festim-dev/festim/issues/134)"
                 warnings.warn(msg)
 
+            function = self.function
+            if len(function.function_space().component()) > 0:
+                # the field is part of a mixed function: only write its own dofs,
+                # otherwise it cannot be read back correctly
+                function = f.Function(function.function_space().collapse())
+                f.assign(function, self.function)
+
             self.file.write_checkpoint(
-                self.function,
+                function,
                 self.label,
                 t,
                 f.XDMFFile.Encoding.HDF5,
-- 
2.43.0


From 1678c1ef4c394ec3ba3492a5aec68dff65f3fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 26/37] fix: TrapDensityXDMF works whatever the trap ids

The function space was taken from the trap labelled "1", which does not exist
when the traps have their own ids.
---
 festim/exports/exports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index b5fc94e..fd7109d 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -93,10 +93,11 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        export.function = label_to_function[export.trap.id]
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
-- 
2.43.0


From b22ceb83fc573d213b2c23ea2458566ee7300b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:08 +0000
Subject: [PATCH 27/37] fix: restart with conservation of chemical potential
 keeps the jump of the concentration at interfaces

The concentration of a checkpoint (DG1) was read in a continuous space, which
gave one side's value to both materials.
---
 festim/concentration/theta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index e1bd102..86748fe 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -25,7 +25,9 @@ class Theta(Mobile):
             time_step (int, optional): the time step to read in the XDMF file.
                 Defaults to None.
         """
-        comp = self.get_comp(V, value, label=label, time_step=time_step)
+        # a concentration read from a file is discontinuous at interfaces
+        V_comp = f.FunctionSpace(V.mesh(), "DG", 1)
+        comp = self.get_comp(V_comp, value, label=label, time_step=time_step)
 
         prev_sol = f.Function(V)
         v = f.TestFunction(V)
-- 
2.43.0


From b5b0f28aedc5f801bcffd73b8ff6d21253eccc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:20 +0000
Subject: [PATCH 28/37] fix: initialise again with another mesh (cached radial
 coordinate, cached heat Newton solver)

---
 .../derived_quantities/average_surface.py      |  9 +++------
 .../derived_quantities/average_volume.py       | 18 ++++++------------
 .../exports/derived_quantities/surface_flux.py | 18 ++++++------------
 .../derived_quantities/total_surface.py        | 18 ++++++------------
 .../exports/derived_quantities/total_volume.py | 18 ++++++------------
 festim/temperature/temperature_solver.py       |  5 +++++
 6 files changed, 32 insertions(+), 54 deletions(-)

diff --git a/festim/exports/derived_quantities/average_surface.py b/festim/exports/derived_quantities/average_surface.py
index 2d19a26..1f99aaf 100644
--- a/festim/exports/derived_quantities/average_surface.py
+++ b/festim/exports/derived_quantities/average_surface.py
@@ -88,12 +88,9 @@ class AverageSurfaceCylindrical(AverageSurface):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaz[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaz[0]  # only care about r here
 
         # dS_z = r dr dtheta , assuming axisymmetry dS_z = theta r dr
         # dS_r = r dz dtheta , assuming axisymmetry dS_r = theta r dz
diff --git a/festim/exports/derived_quantities/average_volume.py b/festim/exports/derived_quantities/average_volume.py
index 5a9b185..7a58e8f 100644
--- a/festim/exports/derived_quantities/average_volume.py
+++ b/festim/exports/derived_quantities/average_volume.py
@@ -87,12 +87,9 @@ class AverageVolumeCylindrical(AverageVolume):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaz[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaz[0]  # only care about r here
 
         avg_vol = f.assemble(
             self.function * self.r * self.dx(self.volume)
@@ -130,12 +127,9 @@ class AverageVolumeSpherical(AverageVolume):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaphi[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaphi[0]  # only care about r here
 
         avg_vol = f.assemble(
             self.function * self.r**2 * self.dx(self.volume)
diff --git a/festim/exports/derived_quantities/surface_flux.py b/festim/exports/derived_quantities/surface_flux.py
index f200821..ded14b2 100644
--- a/festim/exports/derived_quantities/surface_flux.py
+++ b/festim/exports/derived_quantities/surface_flux.py
@@ -152,12 +152,9 @@ class SurfaceFluxCylindrical(SurfaceFlux):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
-            rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaz[0]  # only care about r here
+        mesh = self.function.function_space().mesh()  # get the mesh from the function
+        rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaz[0]  # only care about r here
 
         # dS_z = r dr dtheta , assuming axisymmetry dS_z = theta r dr
         # dS_r = r dz dtheta , assuming axisymmetry dS_r = theta r dz
@@ -258,12 +255,9 @@ class SurfaceFluxSpherical(SurfaceFlux):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
-            rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaphi[0]  # only care about r here
+        mesh = self.function.function_space().mesh()  # get the mesh from the function
+        rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaphi[0]  # only care about r here
 
         # dS_r = r^2 sin(theta) dtheta dphi
         # integral(f dS_r) = integral(f r^2 sin(theta) dtheta dphi)
diff --git a/festim/exports/derived_quantities/total_surface.py b/festim/exports/derived_quantities/total_surface.py
index f9e644c..6e6a409 100644
--- a/festim/exports/derived_quantities/total_surface.py
+++ b/festim/exports/derived_quantities/total_surface.py
@@ -124,12 +124,9 @@ class TotalSurfaceCylindrical(TotalSurface):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaz[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaz[0]  # only care about r here
 
         tot_surf = f.assemble(self.function * self.r * self.ds(self.surface))
         tot_surf *= self.azimuth_range[1] - self.azimuth_range[0]
@@ -208,12 +205,9 @@ class TotalSurfaceSpherical(TotalSurface):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaphi[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaphi[0]  # only care about r here
 
         tot_surf = f.assemble(self.function * self.r**2 * self.ds(self.surface))
 
diff --git a/festim/exports/derived_quantities/total_volume.py b/festim/exports/derived_quantities/total_volume.py
index a794fbd..8494613 100644
--- a/festim/exports/derived_quantities/total_volume.py
+++ b/festim/exports/derived_quantities/total_volume.py
@@ -123,12 +123,9 @@ class TotalVolumeCylindrical(TotalVolume):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaz[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaz[0]  # only care about r here
 
         tot_vol = f.assemble(self.function * self.r * self.dx(self.volume))
         tot_vol *= self.azimuth_range[1] - self.azimuth_range[0]
@@ -205,12 +202,9 @@ class TotalVolumeSpherical(TotalVolume):
 
     def compute(self):
 
-        if self.r is None:
-            mesh = (
-                self.function.ufl_domain().ufl_cargo()
-            )  # get the mesh from the function
-            rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
-            self.r = rthetaphi[0]  # only care about r here
+        mesh = self.function.ufl_domain().ufl_cargo()  # get the mesh from the function
+        rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
+        self.r = rthetaphi[0]  # only care about r here
 
         tot_vol = f.assemble(self.function * self.r**2 * self.dx(self.volume))
 
diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 39ed829..1fae171 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -62,6 +62,7 @@ class HeatTransferProblem(festim.Temperature):
         self.boundary_conditions = []
         self.sub_expressions = []
         self.newton_solver = None
+        self._default_newton_solver = None
 
     @property
     def newton_solver(self):
@@ -130,6 +131,9 @@ class HeatTransferProblem(festim.Temperature):
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
 
+        # a solver created by a previous initialisation is sized for its mesh
+        if self.newton_solver is self._default_newton_solver:
+            self.newton_solver = None
         if not self.newton_solver:
             self.define_newton_solver()
 
@@ -233,6 +237,7 @@ class HeatTransferProblem(festim.Temperature):
         self.newton_solver.parameters["maximum_iterations"] = self.maximum_iterations
         self.newton_solver.parameters["linear_solver"] = self.linear_solver
         self.newton_solver.parameters["preconditioner"] = self.preconditioner
+        self._default_newton_solver = self.newton_solver
 
     def create_dirichlet_bcs(self, surface_markers):
         """Creates a list of fenics.DirichletBC and add time dependent
-- 
2.43.0


From cf046ebc52026265773d6564fc9dc3363e3a7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 29/37] fix: models built with default arguments no longer
 share their lists of sources and conditions

---
 festim/generic_simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 5470efd..864926c 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,12 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        self.boundary_conditions = [] if boundary_conditions is None else boundary_conditions
+        self.initial_conditions = [] if initial_conditions is None else initial_conditions
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From 181a54630a2bb708fa02e2d7f03ad506b2e3ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:25 +0000
Subject: [PATCH 30/37] fix: a boundary condition clash is detected whether the
 field is given as an int or a string

---
 festim/generic_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 864926c..941eb5e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -274,7 +274,7 @@ class Simulation:
             # iterate through all BCs
             for dc_sk_bc in dc_sk_bcs:
                 if (
-                    bc == dc_sk_bc or bc.field != dc_sk_bc.field
+                    bc == dc_sk_bc or str(bc.field) != str(dc_sk_bc.field)
                 ):  # skip if the same BC or different fields
                     continue
 
-- 
2.43.0


From 64567b40e66659dce8ee4b8fbe7d94e5467fea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:43 +0000
Subject: [PATCH 31/37] fix: a material with a single pair of nested borders
 can be used

---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 9f12bf7..c5df907 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From 7f26d8d93f5443f4c3ec0e710860257820ece1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:03 +0000
Subject: [PATCH 32/37] fix: extrema over volumes and surfaces when running on
 several processes

---
 .../derived_quantities/derived_quantity.py    | 15 +++++++++++++++
 .../derived_quantities/maximum_surface.py     | 19 +++++++++----------
 .../derived_quantities/maximum_volume.py      | 15 ++++++---------
 .../derived_quantities/minimum_surface.py     | 19 +++++++++----------
 .../derived_quantities/minimum_volume.py      | 15 ++++++---------
 5 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index 63dbccf..e0b4e13 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -75,6 +75,21 @@ class VolumeQuantity(DerivedQuantity):
         self._volume = value
 
 
+def values_at_dofs(function, dofs):
+    """Returns the values of a function at some degrees of freedom, gathered
+    over all the processes
+
+    Args:
+        function (fenics.Function): the function
+        dofs (list of np.array): the (process-local) degrees of freedom,
+            empty if none of them is seen by this process
+    """
+    values = []
+    if len(dofs) > 0:
+        values = function.vector().get_local(np.unique(np.hstack(dofs)))
+    return np.hstack(f.MPI.comm_world.allgather(values))
+
+
 def entity_dofs(dofmap, entity):
     """Returns the dofs (CG1 or DG1) of a mesh entity (a facet or a cell)"""
     tdim = entity.mesh().topology().dim()
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index faa676e..ae4e3b8 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,5 +1,8 @@
 from festim import SurfaceQuantity
-from festim.exports.derived_quantities.derived_quantity import entity_dofs
+from festim.exports.derived_quantities.derived_quantity import (
+    entity_dofs,
+    values_at_dofs,
+)
 import fenics as f
 import numpy as np
 
@@ -50,13 +53,9 @@ class MaximumSurface(SurfaceQuantity):
 
         dm = V.dofmap()
 
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    entity_dofs(dm, entity)
-                    for entity in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
+        subd_dofs = [
+            entity_dofs(dm, entity)
+            for entity in f.SubsetIterator(surface_markers, self.surface)
+        ]
 
-        return np.max(self.function.vector().get_local()[subd_dofs])
+        return np.max(values_at_dofs(self.function, subd_dofs))
diff --git a/festim/exports/derived_quantities/maximum_volume.py b/festim/exports/derived_quantities/maximum_volume.py
index 9fc8358..6ac3a8b 100644
--- a/festim/exports/derived_quantities/maximum_volume.py
+++ b/festim/exports/derived_quantities/maximum_volume.py
@@ -1,4 +1,5 @@
 from festim import VolumeQuantity
+from festim.exports.derived_quantities.derived_quantity import values_at_dofs
 import fenics as f
 import numpy as np
 
@@ -49,13 +50,9 @@ class MaximumVolume(VolumeQuantity):
 
         dm = V.dofmap()
 
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(volume_markers, self.volume)
-                ]
-            )
-        )
+        subd_dofs = [
+            dm.cell_dofs(c.index())
+            for c in f.SubsetIterator(volume_markers, self.volume)
+        ]
 
-        return np.max(self.function.vector().get_local()[subd_dofs])
+        return np.max(values_at_dofs(self.function, subd_dofs))
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index a19eb52..d6eab43 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,5 +1,8 @@
 from festim import SurfaceQuantity
-from festim.exports.derived_quantities.derived_quantity import entity_dofs
+from festim.exports.derived_quantities.derived_quantity import (
+    entity_dofs,
+    values_at_dofs,
+)
 import fenics as f
 import numpy as np
 
@@ -50,13 +53,9 @@ class MinimumSurface(SurfaceQuantity):
 
         dm = V.dofmap()
 
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    entity_dofs(dm, entity)
-                    for entity in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
+        subd_dofs = [
+            entity_dofs(dm, entity)
+            for entity in f.SubsetIterator(surface_markers, self.surface)
+        ]
 
-        return np.min(self.function.vector().get_local()[subd_dofs])
+        return np.min(values_at_dofs(self.function, subd_dofs))
diff --git a/festim/exports/derived_quantities/minimum_volume.py b/festim/exports/derived_quantities/minimum_volume.py
index aee07ea..f5d61d9 100644
--- a/festim/exports/derived_quantities/minimum_volume.py
+++ b/festim/exports/derived_quantities/minimum_volume.py
@@ -1,4 +1,5 @@
 from festim import VolumeQuantity
+from festim.exports.derived_quantities.derived_quantity import values_at_dofs
 import fenics as f
 import numpy as np
 
@@ -49,13 +50,9 @@ class MinimumVolume(VolumeQuantity):
 
         dm = V.dofmap()
 
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(volume_markers, self.volume)
-                ]
-            )
-        )
+        subd_dofs = [
+            dm.cell_dofs(c.index())
+            for c in f.SubsetIterator(volume_markers, self.volume)
+        ]
 
-        return np.min(self.function.vector().get_local()[subd_dofs])
+        return np.min(values_at_dofs(self.function, subd_dofs))
-- 
2.43.0


From 9bc60f5fee433393638ca70b5f1820d883a03e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:03 +0000
Subject: [PATCH 33/37] fix: TXTExport writes the whole profile when running on
 several processes

---
 festim/exports/txt_export.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 7b5ff81..54eae0f 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -145,7 +145,11 @@ class TXTExport(festim.Export):
             self.V = f.FunctionSpace(mesh, "CG", 1)
 
         x = f.interpolate(f.Expression("x[0]", degree=1), self.V)
-        x_column = np.transpose([x.vector()[:]])
+        # in parallel, the whole profile is handled by the first process
+        x_column = np.transpose([x.vector().gather_on_zero()])
+        self.header = "x"
+        if f.MPI.comm_world.rank != 0:
+            return
 
         # if filter is True, get indices of duplicates near interfaces
         # and indices of the first elements from a pair of duplicates otherwise
@@ -182,7 +186,6 @@ class TXTExport(festim.Export):
             self._unique_indices = np.argsort(x_column, axis=0)[:, 0]
 
         self.data = x_column[self._unique_indices]
-        self.header = "x"
 
     def write(self, current_time, final_time):
         """
@@ -196,7 +199,9 @@ class TXTExport(festim.Export):
 
         if self.is_it_time_to_export(current_time):
             solution = f.project(self.function, self.V)
-            solution_column = np.transpose(solution.vector()[:])
+            solution_column = solution.vector().gather_on_zero()
+            if f.MPI.comm_world.rank != 0:
+                return
 
             # if the directory doesn't exist
             # create it
-- 
2.43.0


From 38b8ba815b3f7da5cba370e18517f69d41c0b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 34/37] fix: solve the projections of solubility and initial
 potential as linear problems

Newton's method with its default absolute tolerance left the solubility, the
markers of the solubility laws and the initial chemical potential at zero when
the integrals over the cells are small (fine meshes in micrometres).
---
 festim/concentration/theta.py |  7 +++++--
 festim/materials/materials.py | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 86748fe..7a8b9ed 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -30,17 +30,20 @@ class Theta(Mobile):
         comp = self.get_comp(V_comp, value, label=label, time_step=time_step)
 
         prev_sol = f.Function(V)
+        u = f.TrialFunction(V)
         v = f.TestFunction(V)
         dx = f.Measure("dx", subdomain_data=self.volume_markers)
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(as_subdomain_id(mat.id))
+            F += -u * v * dx(as_subdomain_id(mat.id))
             if mat.solubility_law == "sievert":
                 F += comp / S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
                 F += (comp / S) ** 0.5 * v * dx(as_subdomain_id(mat.id))
-        f.solve(F == 0, prev_sol, bcs=[])
+        # solved as a linear problem (no absolute tolerance): the integrals can be
+        # arbitrarily small on fine meshes
+        f.solve(f.lhs(F) == f.rhs(F), prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c5df907..2f054cc 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -295,13 +295,16 @@ class Materials(list):
         """
         V = f.FunctionSpace(mesh.mesh, "DG", 1)
         S = f.Function(V, name="S")
+        uS = f.TrialFunction(V)
         vS = f.TestFunction(V)
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(festim.as_subdomain_id(mat.id))
+            F += -uS * vS * dx(festim.as_subdomain_id(mat.id))
             F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(festim.as_subdomain_id(mat.id))
-        f.solve(F == 0, S, bcs=[])
+        # solved as a linear problem (no absolute tolerance): the integrals can be
+        # arbitrarily small on fine meshes
+        f.solve(f.lhs(F) == f.rhs(F), S, bcs=[])
 
         self.S = S
 
@@ -317,12 +320,15 @@ class Materials(list):
         henry = f.Function(V)
         sievert = f.Function(V)
 
+        trial_function = f.TrialFunction(V)
         test_function_henry = f.TestFunction(V)
         test_function_sievert = f.TestFunction(V)
 
         # initialise formulations
-        F_henry = -henry * test_function_henry * mesh.dx
-        F_sievert = -sievert * test_function_sievert * mesh.dx
+        # the null term is needed when there are no materials of this kind
+        null = f.Constant(0)
+        F_henry = (null - trial_function) * test_function_henry * mesh.dx
+        F_sievert = (null - trial_function) * test_function_sievert * mesh.dx
 
         # build the formulation depending on the
         for mat in self:
@@ -337,9 +343,9 @@ class Materials(list):
                 elif mat.solubility_law == "sievert":
                     F_sievert += 1 * test_function_sievert * mesh.dx(mat_id)
 
-        # solve the problems
-        f.solve(F_henry == 0, henry, [])
-        f.solve(F_sievert == 0, sievert, [])
+        # solve the problems (linear, see solubility_as_function)
+        f.solve(f.lhs(F_henry) == f.rhs(F_henry), henry, [])
+        f.solve(f.lhs(F_sievert) == f.rhs(F_sievert), sievert, [])
 
         self.henry_marker = henry
         self.sievert_marker = sievert
-- 
2.43.0


From 1bea779e53a70024677f0175164282aa506300a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 35/37] fix: solve the projection of TrapDensityXDMF as a
 linear problem

Newton's method with its default absolute tolerance wrote a density of zero
when the integrals over the cells are small (fine meshes in micrometres).
---
 festim/exports/trap_density_xdmf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 606e248..a170329 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -25,7 +25,8 @@ class TrapDensityXDMF(XDMFExport):
             dx (fenics.Measure): the measure for dx
         """
         functionspace = self.function.function_space().collapse()
-        u = f.Function(functionspace)
+        solution = f.Function(functionspace)
+        u = f.TrialFunction(functionspace)
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
@@ -34,7 +35,9 @@ class TrapDensityXDMF(XDMFExport):
             density = self.trap.density[i if len(self.trap.density) > 1 else 0]
             F -= f.inner(density, v) * dx(as_subdomain_id(mat.id))
 
-        f.solve(F == 0, u, bcs=[])
-        self.function = u
+        # solved as a linear problem (no absolute tolerance): the integrals can be
+        # arbitrarily small on fine meshes
+        f.solve(f.lhs(F) == f.rhs(F), solution, bcs=[])
+        self.function = solution
 
         super().write(t)
-- 
2.43.0


From 9ee0fb7f4380970e4a0362f73739f80032faf081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:50 +0000
Subject: [PATCH 36/37] fix: forget the final time of a transient run when the
 model is run in steady state

---
 festim/generic_simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 941eb5e..e7d555b 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -496,6 +496,9 @@ class Simulation:
             self.iterate()
 
     def run_steady(self):
+        # there may be a final_time from a previous transient run
+        self.exports.final_time = None
+
         # Solve steady state
         festim.festim_print("Solving steady state problem...")
 
-- 
2.43.0


From fd8a630c7a4dd5339f8d1e93946b956833250792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:07 +0000
Subject: [PATCH 37/37] fix: evaluate expressions at t=0 when a model is
 initialised

---
 festim/h_transport_problem.py            | 4 ++++
 festim/temperature/temperature_solver.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 57695e2..3624993 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -106,6 +106,10 @@ class HTransportProblem:
         # Boundary conditions
         festim.festim_print("Defining boundary conditions")
         self.create_dirichlet_bcs(materials, mesh)
+
+        # expressions may hold the time of a previous run
+        festim.update_expressions(self.expressions, 0)
+
         if self.settings.transient:
             self.traps.define_variational_problem_extrinsic_traps(mesh.dx, dt, self.T)
             self.traps.define_newton_solver_extrinsic_traps()
diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 1fae171..71fa999 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -140,6 +140,9 @@ class HeatTransferProblem(festim.Temperature):
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
 
+            # expressions may hold the time of a previous run
+            festim.update_expressions(self.sub_expressions, 0)
+
             dT = f.TrialFunction(self.T.function_space())
             JT = f.derivative(self.F, self.T, dT)
             problem = festim.Problem(JT, self.F, self.dirichlet_bcs)
-- 
2.43.0

