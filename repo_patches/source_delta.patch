From 5ccf3534f4b93166bbf5f038d7b2672462644d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 01/37] fix: use absolute characteristic speeds in scalar wave
 speed

Burgers states with negative values led to a too small or even negative wave
speed, hence the Lax-Friedrichs flux was anti-diffusive there.
---
 finite_volume/scalar/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..aef58bf 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,8 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)),
+            np.abs(self._flux_prime(value_right)),
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From 6706a7b37ebd114dec2bd35f6616e1e1a4d85853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 02/37] fix: avoid a vanishing scalar wave speed

Two neighbouring vanishing Burgers states led to a division by zero and a NaN
flux.
---
 finite_volume/scalar/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index aef58bf..1c28424 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -1,5 +1,6 @@
 from typing import Callable, Tuple
 
+import defaults
 import numpy as np
 
 import core
@@ -25,6 +26,8 @@ class WaveSpeed:
             np.abs(self._flux_prime(value_left)),
             np.abs(self._flux_prime(value_right)),
         )
+        # a vanishing wave speed leads to an undefined intermediate state
+        wave_speed = np.maximum(wave_speed, defaults.EPSILON)
 
         return -wave_speed, wave_speed
 
-- 
2.43.0


From 4c9dd90dbfaed3a492b1ec1f118a1024b157c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 03/37] fix: use the neighbours of the original cells for ghost
 cell bounds

The bounds of the periodic ghost cells missed one neighbour. So the limited
fluxes at the first and the last node differed and mass was not conserved.
---
 finite_volume/scalar/solver/mcl.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..cb0ff4d 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -38,16 +38,19 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
     _high_order_flux: finite_volume.NumericalFlux
     _local_maximum: core.LocalMaximum
     _local_minimum: core.LocalMinimum
+    _periodic: bool
 
     def __init__(
         self,
         riemann_solver: core.RiemannSolver,
         neighbours_indices: core.NeighbourIndicesMapping,
+        periodic=False,
     ):
         super().__init__(riemann_solver)
         self._high_order_flux = finite_volume.CentralFlux(riemann_solver.flux)
         self._local_maximum = core.LocalMaximum(neighbours_indices)
         self._local_minimum = core.LocalMinimum(neighbours_indices)
+        self._periodic = periodic
 
     @property
     def _wave_speed(self) -> np.ndarray:
@@ -80,7 +83,15 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return -low_order_flux + limited_flux_left, low_order_flux + limited_flux_right
 
     def _get_bounds(self, dof_vector: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
+        value_max = self._local_maximum(dof_vector)
+        value_min = self._local_minimum(dof_vector)
+
+        if self._periodic:
+            # ghost cells are copies of the last and the first cell respectively
+            value_max[[0, -1]] = value_max[[-2, 1]]
+            value_min[[0, -1]] = value_min[[-2, 1]]
+
+        return value_max, value_min
 
 
 class MCLFluxGetter(finite_volume.FluxGetter):
@@ -88,10 +99,11 @@ class MCLFluxGetter(finite_volume.FluxGetter):
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
+        periodic = benchmark.boundary_conditions == ("periodic",)
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+            len(space.mesh) + 2, periodic
         )
-        return MCLFlux(riemann_solver, neighbours_mapping)
+        return MCLFlux(riemann_solver, neighbours_mapping, periodic)
 
 
 class MCLSolver(finite_volume.Solver):
-- 
2.43.0


From 454bb7206b2fc223e920442b656e0d5cc449982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 04/37] fix: let RungeKutta8 accept the initial time like the
 other methods

Solvers pass the initial time by keyword, so continuous Galerkin solvers with
polynomial degree of at least three could not be built.
---
 core/ode_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..ecbe052 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,12 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self,
+        right_hand_side: Callable[[float, T], T],
+        initial_value: T,
+        initial_time=0.0,
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From b841d607c1ae8b7ffe275f929f089dbefe9a40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 05/37] fix: offer the polynomial degree option for finite
 element solvers

The parsers overrode the method which adds +p without calling it.
---
 finite_element/scalar/solver/cg.py     | 1 +
 finite_element/scalar/solver/cg_low.py | 1 +
 finite_element/scalar/solver/mcl.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/finite_element/scalar/solver/cg.py b/finite_element/scalar/solver/cg.py
index 9633ca7..d583ef0 100644
--- a/finite_element/scalar/solver/cg.py
+++ b/finite_element/scalar/solver/cg.py
@@ -91,6 +91,7 @@ class CGParser(finite_element.SolverParser):
     solver = ContinuousGalerkinSolver
 
     def _add_arguments(self):
+        super()._add_arguments()
         self.add_argument(
             "++exact-flux", action="store_true", help="Calculate flux matrices exactly."
         )
diff --git a/finite_element/scalar/solver/cg_low.py b/finite_element/scalar/solver/cg_low.py
index 1e7c2b1..7fdd4fd 100644
--- a/finite_element/scalar/solver/cg_low.py
+++ b/finite_element/scalar/solver/cg_low.py
@@ -130,5 +130,6 @@ class CGLowParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
diff --git a/finite_element/scalar/solver/mcl.py b/finite_element/scalar/solver/mcl.py
index af2d562..65411f9 100644
--- a/finite_element/scalar/solver/mcl.py
+++ b/finite_element/scalar/solver/mcl.py
@@ -164,5 +164,6 @@ class MCLParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
-- 
2.43.0


From b0178913f01077d268879d66e4bf3230b2e06861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 06/37] fix: do not split solver arguments at option values

A solver key following ++flux or a name option started a new solver.
---
 core/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..4fd119f 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,8 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and values[i - 1]
+                not in ["+f", "++flux", "+n", "++name", "+s", "++short"]
             ):
                 slice_index = i
                 break
-- 
2.43.0


From 23f1f03ba486cd1b34872accbc2f9226ca7aa36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 07/37] fix: respect the end time given to generate-data

The solver was always built with the default end time.
---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..31895c4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From 669fa0bb0c69e4757867f2cee09607b66b5d14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 08/37] fix: compare flux approximation input with a copy of
 the last one

The last DOF vector was stored by reference and compared with uninitialized
memory at first. So a vector changed in place returned an outdated flux.
---
 finite_element/flux_approximation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..2bffdfe 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -19,15 +19,17 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector = None
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
+        if self._last_dof_vector is None or not np.array_equal(
+            dof_vector, self._last_dof_vector
+        ):
             self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+            self._last_dof_vector = dof_vector.copy()
 
         return self._flux_approximation
 
-- 
2.43.0


From b43c794a444fdad3a056949f77e73b28da7c4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 09/37] fix: store a copy of the updated discrete solution

The ODE solvers modify their solution in place. So after a step with a not
finite result the rejected values were visible at the previous time.
---
 core/discrete_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..2366eca 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -55,7 +55,7 @@ class DiscreteSolution(Generic[T]):
             raise ValueError("Solution is not finite.")
 
         self._time += time_step
-        self._value = value
+        self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
-- 
2.43.0


From 3c31c21f70604dcd1f75b7abefe18d05d95e8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 10/37] fix: pass plot path to the plotter of the error
 evolution series

parameter-variation-test --save-plot failed because the plotter has no
argument called save.
---
 command/error_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From 54227b502202f7bec8a0d5e646ef77fe167d5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 11/37] fix: let the random benchmark be chosen without a seed

The advertised benchmark key 'random' was always rejected, since benchmarks
are built without arguments.
---
 benchmark/shallow_water.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 95d98e8..585cfd4 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -226,7 +226,7 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
     def __init__(
         self,
-        seed: int,
+        seed=None,
         end_time=40.0,
         height_average=None,
         height_amplitude=None,
@@ -237,6 +237,9 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
         velocity_phase_shift=None,
         velocity_wave_number=None,
     ):
+        if seed is None:
+            seed = np.random.default_rng().integers(int(1e9))
+
         self.seed = seed
         self._generator = np.random.default_rng(seed)
 
-- 
2.43.0


From 7d5134ab2fc7c80e63171e17c6497adcbf7be910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 12/37] fix: mirror the related inner cell in each reflecting
 ghost cell

With a radius greater than one every ghost cell mirrored the outermost cell.
---
 finite_volume/shallow_water/boundary.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/finite_volume/shallow_water/boundary.py b/finite_volume/shallow_water/boundary.py
index 5f0da20..6a0b280 100644
--- a/finite_volume/shallow_water/boundary.py
+++ b/finite_volume/shallow_water/boundary.py
@@ -4,16 +4,22 @@ import core
 
 
 class LeftReflectingCell(core.GhostCell):
+    def __init__(self, index=0):
+        self._index = index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[0].copy()
+        value = dof_vector[self._index].copy()
         value[1] *= -1
 
         return value
 
 
 class RightReflectingCell(core.GhostCell):
+    def __init__(self, index=0):
+        self._index = index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[-1].copy()
+        value = dof_vector[-self._index - 1].copy()
         value[1] *= -1
 
         return value
@@ -38,7 +44,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_left=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return LeftReflectingCell()
+            return LeftReflectingCell(index)
         else:
             return super()._build_left_cell(condition, index, inflow_left=inflow_left)
 
@@ -46,7 +52,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_right=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return RightReflectingCell()
+            return RightReflectingCell(index)
         else:
             return super()._build_right_cell(
                 condition, index, inflow_right=inflow_right
-- 
2.43.0


From 5a3a2278dab47d32fc4de514256fd3bc91da08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 13/37] fix: apply the bathymetry source of reduced models only
 once

The corrected flux already contains the source term, but it was wrapped again.
---
 .../shallow_water/solver/reduced_model.py         | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..e8d2872 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,19 +190,10 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        # the given flux already considers the bathymetry
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From ddee9387f9afc7650c954df3a23c86ca8daefb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 14/37] fix: use the averages of the energy conservative flux
 by Fjordholm et al.

Evaluating the flux at the averaged state neither conserves energy nor
preserves a lake at rest.
---
 .../shallow_water/solver/energy_stable.py     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..f495fab 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -11,17 +11,31 @@ import numpy as np
 
 class EnergyStableFlux(finite_volume.NumericalFlux):
     input_dimension = 2
-    _flux: swe.Flux
-    _average: np.ndarray
+    _gravitational_acceleration: float
 
     def __init__(self, gravitational_acceleration=None):
-        self._flux = swe.Flux(gravitational_acceleration)
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray]:
-        self._average = swe.get_average(value_left, value_right)
-        flux = self._flux(self._average)
+        height_left, height_right = swe.get_heights(value_left, value_right)
+        height = swe.get_average(height_left, height_right)
+        if (height < 0).any():
+            raise ValueError("Height is negative.")
+
+        velocity = swe.get_average(*swe.get_velocities(value_left, value_right))
+        height_squared = swe.get_average(height_left**2, height_right**2)
+
+        flux = np.array(
+            [
+                height * velocity,
+                height * velocity**2
+                + self._gravitational_acceleration / 2 * height_squared,
+            ]
+        ).T
         return -flux, flux
 
 
-- 
2.43.0


From fb4abda9833d8e0b71b1b542bac4df58a8345665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 15/37] fix: provide the data helpers used by the data commands

analyze-data, delete-curvature and analyze-curvature use core.load_data and
core.save_data, which were missing. So these commands always failed.
---
 core/__init__.py |  1 +
 core/data.py     | 10 ++++++++++
 2 files changed, 11 insertions(+)
 create mode 100644 core/data.py

diff --git a/core/__init__.py b/core/__init__.py
index ceb070b..aea09e6 100644
--- a/core/__init__.py
+++ b/core/__init__.py
@@ -1,4 +1,5 @@
 from .boundary import *
+from .data import *
 from .discrete_solution import *
 from .function import *
 from .index_mapping import *
diff --git a/core/data.py b/core/data.py
new file mode 100644
index 0000000..7b21d28
--- /dev/null
+++ b/core/data.py
@@ -0,0 +1,10 @@
+import pandas as pd
+
+
+def load_data(path: str) -> pd.DataFrame:
+    """Load data generated by the command generate-data."""
+    return pd.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)
+
+
+def save_data(data: pd.DataFrame, path: str):
+    data.to_csv(path)
-- 
2.43.0


From 701fbcad4e4086107de8be5946c75913a1b29bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 16/37] fix: respect a vanishing antidiffusion parameter

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..ed422af 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = gamma if gamma is not None else defaults.ANTIDIFFUSION_GAMMA
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From ce0a61015d1e871b438cbaca8e11c6e3f677febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 17/37] fix: respect vanishing parameters of random benchmarks

---
 benchmark/shallow_water.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 585cfd4..f4e8a1b 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -245,18 +245,24 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average or HEIGHT_AVERAGE,
-            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
-            height_phase_shift=height_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            height_wave_number=height_wave_number or self._generator.integers(1, 6),
-            velocity_average=velocity_average or self._generator.uniform(1, 2),
-            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
-            velocity_phase_shift=velocity_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
+            height_average=height_average,
+            height_amplitude=self._get_parameter(height_amplitude, 0.2, 0.6),
+            height_phase_shift=self._get_parameter(height_phase_shift, 0, 2 * np.pi),
+            height_wave_number=self._get_wave_number(height_wave_number, 1, 6),
+            velocity_average=self._get_parameter(velocity_average, 1, 2),
+            velocity_amplitude=self._get_parameter(velocity_amplitude, 0.2, 0.6),
+            velocity_phase_shift=self._get_parameter(
+                velocity_phase_shift, 0, 2 * np.pi
+            ),
+            velocity_wave_number=self._get_wave_number(velocity_wave_number, 1, 5),
         )
 
+    def _get_parameter(self, value, minimum: float, maximum: float) -> float:
+        return self._generator.uniform(minimum, maximum) if value is None else value
+
+    def _get_wave_number(self, value, minimum: int, maximum: int) -> int:
+        return self._generator.integers(minimum, maximum) if value is None else value
+
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -270,7 +276,9 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed or self._seed_generator.integers(int(1e9))
+        if seed is None:
+            seed = self._seed_generator.integers(int(1e9))
+
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From e65923bd730bcac1a54e97bca6fffd6ec0f09323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 18/37] fix: let animate and eoc run without a solver

---
 command/animate.py   | 6 ++++--
 command/calculate.py | 2 +-
 command/error.py     | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..4c83a0a 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -401,7 +401,7 @@ class Animate(Command):
             self._solver = solver
 
     def execute(self):
-        if not self._solver_executed:
+        if self._solver is not None and not self._solver_executed:
             self._calculate_solutions()
 
         self._add_animations()
@@ -423,7 +423,9 @@ class Animate(Command):
                     )
 
     def _add_animations(self):
-        self._add_discrete_solutions()
+        if self._solver is not None:
+            self._add_discrete_solutions()
+
         self._add_exact_solution()
 
         if self._initial:
diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..a4509b9 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -212,5 +212,5 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
+        for solver_arguments in arguments.solver or []:
             solver_arguments.save_history = True
diff --git a/command/error.py b/command/error.py
index 2370889..8ff681f 100644
--- a/command/error.py
+++ b/command/error.py
@@ -285,7 +285,10 @@ class CalculateEOCParser(CalculateParser):
             f"Initial Mesh Size={arguments.mesh_size}, Refinements={arguments.refine} "
         )
         for solver_arguments in tqdm(
-            arguments.solver, desc="Calculate Solutions", unit="solver", leave=False
+            arguments.solver or [],
+            desc="Calculate Solutions",
+            unit="solver",
+            leave=False,
         ):
             solver_type = solver_arguments.solver
             del solver_arguments.solver
-- 
2.43.0


From 2f1c4bb07ae4099a784b3f47bc06262de4a2b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 19/37] fix: do not use the inverse of outdated matrix values

---
 core/system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/system.py b/core/system.py
index e2205d0..922eeda 100644
--- a/core/system.py
+++ b/core/system.py
@@ -53,9 +53,12 @@ class SystemMatrix:
     def __init__(self, dimension: int):
         self.dimension = dimension
 
-        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
+        self._reset_inverse()
         self._lil_values = lil_matrix((dimension, dimension))
 
+    def _reset_inverse(self):
+        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
+
     def __call__(self) -> spmatrix:
         return self._lil_values
 
@@ -65,6 +68,7 @@ class SystemMatrix:
     def set_values(self, values: np.ndarray):
         self._csr_values = csr_matrix(values)
         self._lil_values = lil_matrix(values)
+        self._reset_inverse()
 
     def build_inverse(self):
         self._inverse = splu(self._csr_values.tocsc())
@@ -76,6 +80,7 @@ class SystemMatrix:
 
     def update_csr_values(self):
         self._csr_values = csr_matrix(self._lil_values)
+        self._reset_inverse()
 
     def __getitem__(self, key):
         return self._lil_values[key]
-- 
2.43.0


From c3959424d82d0f769ad52c1d992600a7adcab155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 20/37] fix: write the header if generated data is appended to
 a new file

---
 command/generate_data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 31895c4..e4a0eb5 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -376,12 +376,12 @@ class GenerateData(Command):
         benchmark_data: pd.DataFrame,
         overwrite: bool,
     ):
-        subgrid_flux_data.to_csv(
-            self._subgrid_flux_path, mode="w" if overwrite else "a", header=overwrite
-        )
-        benchmark_data.to_csv(
-            self._benchmark_path, mode="w" if overwrite else "a", header=overwrite
-        )
+        for data, path in [
+            (subgrid_flux_data, self._subgrid_flux_path),
+            (benchmark_data, self._benchmark_path),
+        ]:
+            new_file = overwrite or not os.path.isfile(path)
+            data.to_csv(path, mode="w" if new_file else "a", header=new_file)
 
 
 class GenerateDataParser(CalculateParser):
-- 
2.43.0


From fbc9b37d4b7f36803099d77f723bbe3f6f1e3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 21/37] fix: limit velocities of both states of the MCL scheme
 with their own heights

---
 finite_volume/shallow_water/solver/mcl.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..ec6a880 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -24,7 +24,8 @@ class MCLFlux(LowOrderFlux):
     _high_order_flux: finite_volume.NumericalFlux
     _boundary_conditions: core.BoundaryConditions
 
-    _limited_height: np.ndarray
+    _limited_height_left: np.ndarray
+    _limited_height_right: np.ndarray
     _velocity_bar_state: np.ndarray
 
     def __init__(
@@ -115,7 +116,12 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height_left = (
+            self._height_HLL + -limited_height_flux / self._wave_speed
+        )
+        self._limited_height_right = (
+            self._height_HLL + limited_height_flux / self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -129,7 +135,7 @@ class MCLFlux(LowOrderFlux):
 
         limited_fq = limited_fv + -self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
         return -limited_fq, limited_fq
@@ -144,7 +150,7 @@ class MCLFlux(LowOrderFlux):
     ) -> np.ndarray:
         return antidiffusive_discharge_flux + self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
     def _get_limited_velocity_fluxes(
@@ -157,12 +163,12 @@ class MCLFlux(LowOrderFlux):
         velocity_min_left, velocity_min_right = velocity_min[:-1], velocity_min[1:]
 
         flux_maximum = self._wave_speed * np.minimum(
-            self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            self._limited_height_right * (velocity_max_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
-            self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            self._limited_height_right * (velocity_min_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From 8bd2fbe3790aa93ce43cd5ec540a2b3400594cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 22/37] fix: replace the Lax-Friedrichs diffusion in the
 Lax-Wendroff flux

The diffusion of the Lax-Wendroff flux is the squared wave speed times half
the time step by the step length. The added term lacked a wave speed, such
that it neither vanished with the diffusion of the local Lax-Friedrichs flux
nor had its unit.
---
 finite_volume/shallow_water/solver/lax_wendroff.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..e7b7045 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -29,13 +29,12 @@ class LaxWendroffFlux(finite_volume.NumericalFlux):
     ) -> Tuple[np.ndarray, np.ndarray]:
         _, llf_flux = self._llf_flux(value_left, value_right)
         _, wave_speed = self._wave_speed(value_left, value_right)
+        courant_number = self._time_step * wave_speed / self._step_length
 
         flux = (
             llf_flux
-            + self._time_step
-            * wave_speed[:, None]
+            + (wave_speed * (1 - courant_number) / 2)[:, None]
             * (value_right - value_left)
-            / self._step_length
         )
         return -flux, flux
 
-- 
2.43.0


From c59b68cb6a701bb5e3eeeb1ef4ecf6ca02ccbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 23/37] fix: do not scale the wave speeds of the energy stable
 diffusion

The eigenvectors are already scaled such that their products give the
derivative of the state with respect to the entropy variables. The second
factor made the diffusion depend on the unit of the gravitational acceleration
and about four times smaller than upwinding.
---
 .../shallow_water/solver/energy_stable.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index f495fab..7e45631 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -121,15 +121,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_Lambda(
         self, wave_speed_minus: np.ndarray, wave_speed_plus: np.ndarray
     ) -> np.ndarray:
-        Lambda = (
-            1
-            / np.sqrt(2 * self._gravitational_acceleration)
-            * np.array(
-                [
-                    [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
-                    [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
-                ]
-            )
+        Lambda = np.array(
+            [
+                [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
+                [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
+            ]
         )
         return np.moveaxis(Lambda, -1, 0)
 
-- 
2.43.0


From fed32bf210179b8d0e4c1accd925c89b8729a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 24/37] fix: isolate solution objects from their initial value,
 read histories and rejected resets

---
 core/discrete_solution.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index 2366eca..8a04757 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -23,7 +23,7 @@ class DiscreteSolution(Generic[T]):
         space=None,
     ):
         self._time = initial_time
-        self._value = initial_value
+        self._value = initial_value.copy()
         self._space = space
 
     @property
@@ -92,7 +92,7 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     @property
     def time_history(self) -> np.ndarray:
-        return self._time_history
+        return self._time_history.copy()
 
     @property
     def time_step_history(self) -> np.ndarray:
@@ -110,11 +110,13 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
         )
 
     def set_value(self, value: np.ndarray, time=0.0):
-        values_past = self.time_history < time
-        self._time_history = self.time_history[values_past]
-        self._value_history = self.value_history[values_past]
+        self._solution.set_value(value, time=time)
 
-        self.update(time - self.time, value)
+        values_past = self._time_history < time
+        self._time_history = np.append(self._time_history[values_past], self.time)
+        self._value_history = np.append(
+            self._value_history[values_past], np.array([self.value]), axis=0
+        )
 
 
 class CoarseSolution(DiscreteSolution[T]):
-- 
2.43.0


From c9b655315d14453e5462551b7c4fa9492c0de395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 25/37] Revert "fix: respect vanishing parameters of random
 benchmarks"

This reverts commit ce0a61015d1e871b438cbaca8e11c6e3f677febd.
---
 benchmark/shallow_water.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index f4e8a1b..585cfd4 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -245,24 +245,18 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average,
-            height_amplitude=self._get_parameter(height_amplitude, 0.2, 0.6),
-            height_phase_shift=self._get_parameter(height_phase_shift, 0, 2 * np.pi),
-            height_wave_number=self._get_wave_number(height_wave_number, 1, 6),
-            velocity_average=self._get_parameter(velocity_average, 1, 2),
-            velocity_amplitude=self._get_parameter(velocity_amplitude, 0.2, 0.6),
-            velocity_phase_shift=self._get_parameter(
-                velocity_phase_shift, 0, 2 * np.pi
-            ),
-            velocity_wave_number=self._get_wave_number(velocity_wave_number, 1, 5),
+            height_average=height_average or HEIGHT_AVERAGE,
+            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
+            height_phase_shift=height_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            height_wave_number=height_wave_number or self._generator.integers(1, 6),
+            velocity_average=velocity_average or self._generator.uniform(1, 2),
+            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
+            velocity_phase_shift=velocity_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
         )
 
-    def _get_parameter(self, value, minimum: float, maximum: float) -> float:
-        return self._generator.uniform(minimum, maximum) if value is None else value
-
-    def _get_wave_number(self, value, minimum: int, maximum: int) -> int:
-        return self._generator.integers(minimum, maximum) if value is None else value
-
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -276,9 +270,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        if seed is None:
-            seed = self._seed_generator.integers(int(1e9))
-
+        seed = seed or self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 88afe033abce9534392cd12e7527598a6177c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 26/37] Revert "fix: let the random benchmark be chosen without
 a seed"

---
 benchmark/shallow_water.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 585cfd4..95d98e8 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -226,7 +226,7 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
     def __init__(
         self,
-        seed=None,
+        seed: int,
         end_time=40.0,
         height_average=None,
         height_amplitude=None,
@@ -237,9 +237,6 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
         velocity_phase_shift=None,
         velocity_wave_number=None,
     ):
-        if seed is None:
-            seed = np.random.default_rng().integers(int(1e9))
-
         self.seed = seed
         self._generator = np.random.default_rng(seed)
 
-- 
2.43.0


From 980658566e2f958b3235456d04738a9968c277cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 27/37] fix: report a vanishing fixed time step instead of
 dividing by it

---
 core/time_stepping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index 17cf134..f9e780a 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -127,6 +127,10 @@ class TimeStepping:
             time_step = self._time_step_generator()
             duration = self._end_time - self._start_time
 
+            if time_step <= 0:
+                # iterating raises an error for a too small time step
+                return 0
+
             time_steps_number = int(duration // time_step)
             time_steps_number += (
                 1 if time_step * time_steps_number < duration - 1e-12 else 0
-- 
2.43.0


From fc00c7c0de928288246ffca4d16e2c7143278bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 28/37] fix: entropy jump of the energy stable diffusion is
 taken between both states of a face

It was the difference of consecutive entries of a vector built from all
faces, which is wrong if the faces are not adjacent, as in generate-data,
where the states of one face at all times are passed.
---
 .../shallow_water/solver/energy_stable.py     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 7e45631..941cb7b 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -74,11 +74,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
+        entropy_step = self._get_entropy_step(value_left, value_right)
 
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
@@ -129,8 +125,19 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        bathymetry_left, bathymetry_right = None, None
+
+        if len(self._bathymetry) > 1:
+            bathymetry_left = self._bathymetry[:-1]
+            bathymetry_right = self._bathymetry[1:]
+
+        entropy_step = self._entropy(
+            value_right, bathymetry=bathymetry_right
+        ) - self._entropy(value_left, bathymetry=bathymetry_left)
+
         return entropy_step[..., None]
 
 
-- 
2.43.0


From 8e8668226fdbb954650114cb88d2976bea5bc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 29/37] fix: a reinitialised finite element solver keeps the
 time step of its previous data

Without adaptive time stepping the time step is the optimal one of the
initial data, so it has to be evaluated again for new initial data.
---
 core/time_stepping.py    | 8 ++++++++
 finite_element/solver.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index f9e780a..d541ee2 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -67,6 +67,10 @@ class TimeStepGenerator:
             self._time_step = time_step_function()
             self._get_time_step = lambda: self._time_step * self._cfl_number
 
+    def reinitialize(self, time_step_function: Callable[[], float]):
+        if not self._adaptive:
+            self._time_step = time_step_function()
+
     @property
     def adaptive(self) -> bool:
         return self._adaptive
@@ -108,6 +112,10 @@ class TimeStepping:
             optimal_time_step, cfl_number, adaptive
         )
 
+    def reinitialize(self):
+        """Evaluates the optimal time step anew."""
+        self._time_step_generator.reinitialize(self._build_optimal_time_step)
+
     def __iter__(self):
         self._stop_iteration = False
         self.time = self._start_time
diff --git a/finite_element/solver.py b/finite_element/solver.py
index 5722cb4..f775b3a 100644
--- a/finite_element/solver.py
+++ b/finite_element/solver.py
@@ -12,6 +12,7 @@ class Solver(core.Solver):
         )
         self.solution.set_value(initial_data.value, initial_data.time)
         self._ode_solver.reinitialize(initial_data.value, initial_data.time)
+        self._time_stepping.reinitialize()
 
 
 class SolverParser(core.SolverParser):
-- 
2.43.0


From 8b0242c68c41388b843a09b8f3fc14160074aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 30/37] fix: refuse numbers on the command line which are not
 finite

---
 core/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/type.py b/core/type.py
index 12399c7..0b950f4 100644
--- a/core/type.py
+++ b/core/type.py
@@ -1,6 +1,6 @@
 def positive_float(input: str) -> float:
     value = float(input)
-    if value <= 0:
+    if not 0 < value < float("inf"):
         raise ValueError(f"{value} is not a positive floating point number")
 
     return value
@@ -24,7 +24,7 @@ def non_negative_int(input: str) -> int:
 
 def percent_number(input: str) -> float:
     value = float(input)
-    if value < 0 or value > 1:
+    if not 0 <= value <= 1:
         raise ValueError(f"{value} is not an element of the interval [0,1]")
 
     return value
-- 
2.43.0


From b93003c2685b5219313f885d8ec3634b61837d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 31/37] fix: an end time on the command line does not change
 the default benchmark of later ones

---
 command/calculate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/command/calculate.py b/command/calculate.py
index a4509b9..cb08c04 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 from typing import Any, Callable, Dict, List, Sequence
 
 import core
@@ -194,6 +195,8 @@ class CalculateParser(CommandParser):
 
     def _adjust_end_time(self, arguments):
         if arguments.end_time:
+            # benchmarks used by default are shared with later command lines
+            arguments.benchmark = copy.copy(arguments.benchmark)
             arguments.benchmark.end_time = arguments.end_time
         del arguments.end_time
 
-- 
2.43.0


From f6cfcf83d08d64108d555c54c55bfdfaee50e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 32/37] fix: plots of a series contain those of the previous
 benchmarks

---
 command/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..47f3a44 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -87,7 +87,8 @@ class Plotter(ABC, Generic[T]):
         ...
 
     def _show_plots(self):
-        plt.show() if self._show else plt.close()
+        # figures left open would be reused by later plots
+        plt.show() if self._show else plt.close("all")
 
     def __repr__(self) -> str:
         return self.__class__.__name__
-- 
2.43.0


From 1127bbbccbfdc7102f73d4eeea89f6f96c8cdc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 33/37] fix: read data files without changing their last digits

---
 core/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/data.py b/core/data.py
index 7b21d28..edc8331 100644
--- a/core/data.py
+++ b/core/data.py
@@ -3,7 +3,13 @@ import pandas as pd
 
 def load_data(path: str) -> pd.DataFrame:
     """Load data generated by the command generate-data."""
-    return pd.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)
+    return pd.read_csv(
+        path,
+        header=[0, 1],
+        skipinitialspace=True,
+        index_col=0,
+        float_precision="round_trip",
+    )
 
 
 def save_data(data: pd.DataFrame, path: str):
-- 
2.43.0


From 1d9e48019100dc08a8ce1b514f8e23f32fd0681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 34/37] fix: set_value sets the given time exactly

Adding the difference to the current time rounds, such that a history
reset repeatedly keeps an entry of the time it is reset to.
---
 core/discrete_solution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index 8a04757..0af0585 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -58,7 +58,8 @@ class DiscreteSolution(Generic[T]):
         self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
-        self.update(time - self._time, value)
+        self.update(0.0, value)
+        self._time = time
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 9645c64ba817c1d6a50441e976a525733d241eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 35/37] fix: fluxes accept an explicitly given bathymetry

---
 finite_volume/shallow_water/numerical_flux.py       | 7 ++++---
 finite_volume/shallow_water/solver/energy_stable.py | 7 ++++---
 finite_volume/shallow_water/solver/lax_wendroff.py  | 7 ++++---
 finite_volume/shallow_water/solver/low_order.py     | 7 ++++---
 finite_volume/shallow_water/solver/mcl.py           | 5 ++++-
 5 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/finite_volume/shallow_water/numerical_flux.py b/finite_volume/shallow_water/numerical_flux.py
index 27e3206..acae6b3 100644
--- a/finite_volume/shallow_water/numerical_flux.py
+++ b/finite_volume/shallow_water/numerical_flux.py
@@ -75,9 +75,10 @@ class FluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = self._get_flux(benchmark)
 
         return NumericalFlux(
diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 941cb7b..b6839ac 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -155,9 +155,10 @@ class FirstOrderDiffusiveEnergyStableFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         return FirstOrderDiffusiveEnergyStableFlux(
             benchmark.gravitational_acceleration, bathymetry
         )
diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index e7b7045..1999378 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -46,9 +46,10 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = LaxWendroffFlux(
             space.mesh.step_length, benchmark.gravitational_acceleration
         )
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..5e3db06 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -119,9 +119,10 @@ class LowOrderFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
 
         return LowOrderFlux(
             benchmark.gravitational_acceleration,
diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index ec6a880..260f80c 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -212,7 +212,10 @@ class MCLFluxGetter(swe.FluxGetter):
             inflow_left=benchmark.inflow_left,
             inflow_right=benchmark.inflow_right,
         )
-        bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
 
         return MCLFlux(
             high_order_flux,
-- 
2.43.0


From 78d59f1c6ca8954b5444c5773cf4866a3ceb150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 36/37] fix: short animations are saved with at least one frame
 per second

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 4c83a0a..17541b4 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -80,7 +80,9 @@ class Animator(ABC, Generic[T]):
 
     @property
     def frames_per_second(self) -> int:
-        return int((len(self._temporal_grid) - self.start_index) / self._duration)
+        return max(
+            1, int((len(self._temporal_grid) - self.start_index) / self._duration)
+        )
 
     def set_suptitle(self, suptitle: str):
         self._figure.suptitle(
-- 
2.43.0


From 9ddcfccde7af554004eacfbc9cfa0accbedb536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:44 +0000
Subject: [PATCH 37/37] fix: Lax-Wendroff flux and largest wave speed use the
 default gravity if none is given

---
 finite_volume/shallow_water/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/core.py b/finite_volume/shallow_water/core.py
index eda87ce..29bcd68 100644
--- a/finite_volume/shallow_water/core.py
+++ b/finite_volume/shallow_water/core.py
@@ -237,8 +237,10 @@ class MaximumWaveSpeed:
 
     _gravitational_acceleration: float
 
-    def __init__(self, gravitational_acceleration: float):
-        self._gravitational_acceleration = gravitational_acceleration
+    def __init__(self, gravitational_acceleration=None):
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(self, value_left, value_right) -> Tuple:
         height_left, height_right = get_heights(value_left, value_right)
-- 
2.43.0

