From fc7b18b199cab9ac863c0641f704e9448c9e9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 01/24] =?UTF-8?q?fix:=20sign=20errors=20when=20recovering?=
 =?UTF-8?q?=20B=5F=CF=86'=20from=20E=5Fr?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

E_r is linear in B_φ'; solving that relation for B_φ' needs the Hall and
ambipolar cross terms with the signs E_r_func uses (as dderiv_B_φ_soln does in
its denominator), otherwise the recovered derivative does not reproduce the
evolved E_r. Z_5_func itself is left alone, as the other modules use it.
---
 src/disc_solver/solve/deriv_funcs.py | 8 +++++---
 src/disc_solver/solve/solution.py    | 7 ++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/deriv_funcs.py b/src/disc_solver/solve/deriv_funcs.py
index 77e0ac8..9a0e991 100644
--- a/src/disc_solver/solve/deriv_funcs.py
+++ b/src/disc_solver/solve/deriv_funcs.py
@@ -21,7 +21,7 @@ def Z_5_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
 
 def deriv_B_φ_func(
     *, θ, γ, B_r, B_θ, B_φ, v_r, v_φ, v_θ, η_O, η_A, η_H, E_r, b_r, b_φ, b_θ,
-    C, Z_5, tan=np_tan,
+    C, tan=np_tan,
 ):
     """
     Compute the derivative of B_φ, assuming E_r is being used
@@ -30,7 +30,7 @@ def deriv_B_φ_func(
         C * (v_θ * B_r - v_r * B_θ) - E_r - v_φ * B_θ + B_φ * (
             v_θ + tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (1 / 4 - γ) * (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) - C * (
+            ) + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) -
                     b_θ * (1/4 - γ)
@@ -40,7 +40,9 @@ def deriv_B_φ_func(
                 )
             )
         )
-    ) / Z_5
+    ) / (
+        η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+    )
 
 
 def deriv_B_r_func(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..140ec83 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -20,7 +20,7 @@ from scikits.odes.sundials.cvode import StatusEnum
 
 from .deriv_funcs import (
     dderiv_B_φ_soln, deriv_B_r_func, deriv_η_skw_func, deriv_B_φ_func,
-    deriv_E_r_func, C_func, A_func, Z_5_func, B_unit_derivs,
+    deriv_E_r_func, C_func, A_func, B_unit_derivs,
 )
 from .deriv_midplane import (
     taylor_series, get_taylor_first_order, get_taylor_second_order,
@@ -147,15 +147,12 @@ def ode_system(
         b_r, b_φ, b_θ = B_r/B_mag, B_φ/B_mag, B_θ/B_mag
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
-            η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C,
-        )
 
         if use_E_r:
             deriv_B_φ = deriv_B_φ_func(
                 θ=θ, γ=γ, B_r=B_r, B_θ=B_θ, B_φ=B_φ, v_r=v_r, v_φ=v_φ, v_θ=v_θ,
                 η_O=η_O, η_A=η_A, η_H=η_H, E_r=E_r, b_θ=b_θ, b_r=b_r, b_φ=b_φ,
-                C=C, Z_5=Z_5,
+                C=C,
             )
         else:
             deriv_B_φ = B_φ_prime
-- 
2.43.0


From 6d312d94aaa9a93f2d7281cd8d9b0d79a08e203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 02/24] =?UTF-8?q?fix:=20third=20order=20taylor=20coefficie?=
 =?UTF-8?q?nt=20of=20v=5F=CE=B8=20used=20v=5F=CF=86's?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..75b3a3a 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From 9499b2333081168786623c5a3f9fda73eea767b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 03/24] fix: start the integration at the taylor stop angle

numpy.insert returns a new array, so the stop angle never became the first
angle of the continued solution: the values at the stop angle were used as
those at the first grid angle after it. With the stop angle the first angle of
the continued solution, the taylor jump must not record it as well.
---
 src/disc_solver/solve/solution.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 140ec83..c09e6e6 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -407,8 +407,9 @@ def taylor_solution(
     else:
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
-    new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(
+        angles[angles > taylor_stop_angle], 0, taylor_stop_angle
+    )
 
     return TaylorSolution(
         angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
@@ -426,8 +427,9 @@ def taylor_jump(
     expansion.
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
-    new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(
+        angles[angles > taylor_stop_angle], 0, taylor_stop_angle
+    )
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
@@ -450,8 +452,10 @@ def taylor_jump(
     )
 
     return TaylorSolution(
-        angles=scaled_to_rad(array([0, taylor_stop_angle]), θ_scale),
-        params=array([init_con, taylor_values]),
+        # the values at taylor_stop_angle are the first ones of the solution
+        # continued from there
+        angles=scaled_to_rad(array([float_type(0)]), θ_scale),
+        params=array([init_con]),
         new_angles=new_angles, internal_data=None,
         new_initial_conditions=taylor_values, angle_stopped=taylor_stop_angle,
     )
-- 
2.43.0


From 2dfb9711a9ef00989fd8f47c940b61a4dcc40c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 04/24] fix: info sonic-on-scale failed without a sonic point
 and ignored its output file

---
 src/disc_solver/analyse/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..f39dbff 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -118,8 +118,9 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         )
         print("{}: {}".format(
             soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+            None if sonic_θ is None
+            else sonic_θ / get_scale_height(soln_instance)
+        ), file=output_file)
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From 9dbb91650d1b8346043bc699bd2e41bc1ab6eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 05/24] =?UTF-8?q?fix:=20factor=20of=20two=20in=20the=20rad?=
 =?UTF-8?q?ial=20term=20of=20=CF=81''=20at=20the=20midplane?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 75b3a3a..c9a67fe 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From da7f3a3966cc4ff990aadfdbe5d5c686828996a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 06/24] fix: normalisation of the field in the MHD wave speeds

---
 src/disc_solver/analyse/combine_plot.py |  2 +-
 src/disc_solver/analyse/diverge_plot.py |  4 +++-
 src/disc_solver/analyse/plot.py         |  2 +-
 src/disc_solver/critical_points.py      | 14 +++++++++-----
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/analyse/combine_plot.py b/src/disc_solver/analyse/combine_plot.py
index 2702edb..be92643 100644
--- a/src/disc_solver/analyse/combine_plot.py
+++ b/src/disc_solver/analyse/combine_plot.py
@@ -105,7 +105,7 @@ def generate_plot_combine(
 
     norms = get_normalisation(inp)  # need to allow config here
     B_norm, v_norm, ρ_norm = norms["B_norm"], norms["v_norm"], norms["ρ_norm"]
-    wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = np.sqrt(mhd_wave_speeds(values=solution, a_0=cons.a_0))
 
     plot_props = OrderedDict([
         ("velocity", {
diff --git a/src/disc_solver/analyse/diverge_plot.py b/src/disc_solver/analyse/diverge_plot.py
index 99db55c..8e32842 100644
--- a/src/disc_solver/analyse/diverge_plot.py
+++ b/src/disc_solver/analyse/diverge_plot.py
@@ -115,7 +115,9 @@ def generate_diverge_plot(
             label=soln_name, color=color, linestyle=linestyle,
         )
 
-        wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+        wave_speeds = np.sqrt(mhd_wave_speeds(
+            values=solution, a_0=soln.initial_conditions.a_0,
+        ))
 
         if with_slow:
             ax.plot(
diff --git a/src/disc_solver/analyse/plot.py b/src/disc_solver/analyse/plot.py
index 9d1837a..ccc0d60 100644
--- a/src/disc_solver/analyse/plot.py
+++ b/src/disc_solver/analyse/plot.py
@@ -111,7 +111,7 @@ def generate_plot(
     roots_angles = soln.t_roots
     roots_values = soln.y_roots
 
-    wave_speeds = sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = sqrt(mhd_wave_speeds(values=solution, a_0=cons.a_0))
 
     indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
diff --git a/src/disc_solver/critical_points.py b/src/disc_solver/critical_points.py
index 1fd8310..5f6e3c8 100644
--- a/src/disc_solver/critical_points.py
+++ b/src/disc_solver/critical_points.py
@@ -2,16 +2,18 @@
 """
 Functions relating to the sonic and MHD points
 """
-from numpy import sqrt, any as np_any, pi
+from numpy import sqrt, any as np_any
 
 from .utils import (
     ODEIndex, MHD_Wave_Index, interp_for_value, first_closest_index,
 )
 
 
-def mhd_wave_speeds(*, values, sound_speed=1):
+def mhd_wave_speeds(*, values, a_0, sound_speed=1):
     """
-    Computes MHD wave speeds (slow, alfven, fast)
+    Computes the squares of the MHD wave speeds (slow, alfven, fast), where
+    a_0 is the square of the ratio of the midplane Alfvén speed to the sound
+    speed (which sets the normalisation of the magnetic field).
     """
     B_r = values[..., ODEIndex.B_r]
     B_φ = values[..., ODEIndex.B_φ]
@@ -24,7 +26,7 @@ def mhd_wave_speeds(*, values, sound_speed=1):
     # Blandford and Payne (see section 2.4 "Critical Points")
     cos_sq_psi = (B_θ ** 2) / B_sq
 
-    v_a_sq = B_sq / (4 * pi * ρ)
+    v_a_sq = a_0 * B_sq / ρ
     slow = 1/2 * (
         v_a_sq + sound_speed**2 - sqrt(
             (v_a_sq + sound_speed**2)**2 -
@@ -53,7 +55,9 @@ def get_mach_numbers(solution):
     # Blandford and Payne (see section 2.4 "Critical Points")
     v_sq = v_θ ** 2
 
-    wave_speeds_sq = mhd_wave_speeds(values=soln)
+    wave_speeds_sq = mhd_wave_speeds(
+        values=soln, a_0=solution.initial_conditions.a_0,
+    )
 
     slow_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.slow])
     alfven_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.alfven])
-- 
2.43.0


From 2abc400b5496ea5dbc888229d63b8c7259d50669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 07/24] fix: interp_for_value could interpolate across the
 wrong interval

---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..17cb9b8 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -436,8 +436,9 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # Add 1 as stop is non-inclusive. y is between the values at these two
+    # indices, including any more could change which values bracket y
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From 88c9bb07ec628c0f29486830af13604c8b890de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 08/24] fix: keep open ended and missing slices when converting
 to text

---
 src/disc_solver/file_format/_containers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..a114dec 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -44,17 +44,22 @@ def str_to_slice(slice_str):
         return slice_str
     if slice_str.startswith('slice('):
         return eval(slice_str)  # pylint: disable=eval-used
-    return slice(*[int(i) for i in slice_str.strip().split(',')])
+    return slice(*[
+        None if i.strip() == "None" else int(i)
+        for i in slice_str.strip().split(',')
+    ])
 
 
 def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
-    return ','.join([
-        str(i) for i in (slice_.start, slice_.stop, slice_.step)
-        if i is not None
-    ])
+    if slice_ is None:
+        return "None"
+    parts = (slice_.start, slice_.stop)
+    if slice_.step is not None:
+        parts += (slice_.step,)
+    return ','.join([str(i) for i in parts])
 
 
 def replace_empty_string(string):
-- 
2.43.0


From 4c8e4cd79a1d6a7e74943a904720f6c3dc9de55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 09/24] fix: write settings which are None to configuration
 files

---
 src/disc_solver/file_format/_containers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index a114dec..749ea68 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -158,8 +158,8 @@ class ConfigInput:
         cfg["config"]["threads"] = self.threads
         cfg["config"]["target_velocity"] = self.target_velocity
         cfg["config"]["split_method"] = self.split_method
-        cfg["config"]["interp_range"] = self.interp_range
-        cfg["config"]["interp_slice"] = self.interp_slice
+        cfg["config"]["interp_range"] = str(self.interp_range)
+        cfg["config"]["interp_slice"] = str(self.interp_slice)
         cfg["config"]["use_E_r"] = self.use_E_r
 
         cfg["initial"]["γ"] = self.γ
@@ -175,8 +175,8 @@ class ConfigInput:
 
         if self.jump_before_sonic is not None:
             cfg["config"]["jump_before_sonic"] = self.jump_before_sonic
-        if self.mcmc_vars is not None:
-            cfg["config"]["mcmc_vars"] = self.mcmc_vars
+        # the default is not None, so None needs to be written explicitly
+        cfg["config"]["mcmc_vars"] = str(self.mcmc_vars)
         if self.v_θ_sonic_crit is not None:
             cfg["config"]["v_θ_sonic_crit"] = self.v_θ_sonic_crit
         if self.after_sonic is not None:
-- 
2.43.0


From 3474c54550afd8a77273c14a1bcc7a9c71a071d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 10/24] fix: do not change the input stored with a solution
 when stepping

---
 src/disc_solver/solve/stepper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..1988bb8 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,8 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        # copy, so that the input stored with the solution does not change
+        inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From 26ba35dccbbbd3d48fb32146cacae191f41a45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 11/24] fix: fall back to the automatic splitter for unknown
 methods

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 1988bb8..2733f23 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -248,7 +248,7 @@ def create_soln_splitter(method):
         "human": human_view_splitter_generator,
     }
 
-    return method_dict.get(method)() or v_θ_deriv_splitter
+    return method_dict.get(method, lambda: v_θ_deriv_splitter)()
 
 
 def solution_generator(*, store_internal=True):
-- 
2.43.0


From 830b3207e31b69923e2b13b3d89b9d7ed6ea6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 12/24] fix: read back numpy sonic point settings of a solution
 input

---
 src/disc_solver/file_format/_loaders.py | 26 ++++++-------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..64bf937 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1111,26 +1111,12 @@ def _input_loader13(group):
 
 @ds_registry.loader("SolutionInput", version=14)
 def _input_loader14(group):
-    if group["jump_before_sonic"] is None:
-        jump_before_sonic = None
-    else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
-    if group["v_θ_sonic_crit"] is None:
-        v_θ_sonic_crit = None
-    else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
-    if group["after_sonic"] is None:
-        after_sonic = None
-    else:
-        after_sonic = group["after_sonic"]["data"]
-    if group["sonic_interp_size"] is None:
-        sonic_interp_size = None
-    else:
-        sonic_interp_size = group["sonic_interp_size"]["data"]
-    if group["interp_range"] is None:
-        interp_range = None
-    else:
-        interp_range = ensure_fully_loaded(group["interp_range"])
+    # python floats come back as numbers, numpy ones inside a container
+    jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
+    v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
+    after_sonic = ensure_fully_loaded(group["after_sonic"])
+    sonic_interp_size = ensure_fully_loaded(group["sonic_interp_size"])
+    interp_range = ensure_fully_loaded(group["interp_range"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
-- 
2.43.0


From 93b11614ab63884986372952d7e6f9a3e81cc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 13/24] fix: read runs which have no final solution

---
 src/disc_solver/file_format/_loaders.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 64bf937..8920cd0 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1156,7 +1156,7 @@ def _run_loader(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=None,
         float_type=None,
@@ -1170,7 +1170,7 @@ def _run_loader2(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=None,
@@ -1184,7 +1184,7 @@ def _run_loader3(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1198,7 +1198,7 @@ def _run_loader4(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1219,7 +1219,7 @@ def _run_loader5(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
@@ -1251,7 +1251,7 @@ def _run_loader6(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
-- 
2.43.0


From 842155512c3ca1714a40860a16bc66ea8e4252eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 14/24] fix: read internal data of the first two versions

---
 src/disc_solver/file_format/_loaders.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 8920cd0..38d40ba 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -23,7 +23,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -40,7 +39,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
-- 
2.43.0


From 5bb7d93fbeeb59ba7b0b442572ee0f89d8e2ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 15/24] fix: read config and solution inputs from before the
 mcmc settings

---
 src/disc_solver/file_format/_loaders.py | 26 +++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 38d40ba..38cc281 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -247,6 +247,10 @@ def _config_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -271,6 +275,10 @@ def _config_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -296,6 +304,10 @@ def _config_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -353,6 +365,7 @@ def _config_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -666,6 +679,10 @@ def _input_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -693,6 +710,10 @@ def _input_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -721,6 +742,10 @@ def _input_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -784,6 +809,7 @@ def _input_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
-- 
2.43.0


From 36c2282e92358417dafc9cdb792a2128053cec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 16/24] fix: keep use_E_r of older runs when solutions are not
 cached

---
 src/disc_solver/file_format/_loaders.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 38cc281..c2727b8 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1239,9 +1239,11 @@ def _run_loader5(group):
         config_input.use_E_r = str(use_E_r)
 
     solutions = group["solutions"]
-    for soln in solutions.values():
+    for name, soln in solutions.items():
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
+            # otherwise lost if solutions are not cached
+            solutions[name] = soln
 
     final_solution = group.get("final_solution")
     if final_solution is not None and (
@@ -1271,9 +1273,11 @@ def _run_loader6(group):
         config_input.use_E_r = str(use_E_r)
 
     solutions = group["solutions"]
-    for soln in solutions.values():
+    for name, soln in solutions.items():
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
+            # otherwise lost if solutions are not cached
+            solutions[name] = soln
 
     final_solution = group.get("final_solution")
     if final_solution is not None and (
-- 
2.43.0


From 69ede14235c06825e5b1ea3c64a55a4638ad179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 17/24] fix: remove problems by their angle

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 749ea68..8201226 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -368,7 +368,7 @@ class Problems(MutableMapping):
             self._problems[str(key)].extend(val)
 
     def __delitem__(self, key):
-        del self._problems[key]
+        del self._problems[str(key)]
 
     def __iter__(self):
         yield from self._problems
-- 
2.43.0


From 1b3a63185fc4f2ed8af77c6ea820b68bb8253b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 18/24] fix: use the radius of the point in the vertical
 scaling

---
 src/disc_solver/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 17cb9b8..f513ab1 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -231,7 +231,8 @@ def get_vertical_scaling(angles, *, c_s_on_v_k):
     """
     Get scaling from spherical to vertical_scale
     """
-    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k)
+    # heights are in scale heights, c_s_on_v_k converts to units of the radius
+    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k) * c_s_on_v_k
     return sqrt(1 + heights**2)
 
 
-- 
2.43.0


From caed7a3e6ac7d17d4d4e59fd75a6bc8f12c66b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 19/24] fix: do not take the first line of a csv file without
 header as one

---
 src/disc_solver/solve/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..34f188d 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -231,12 +231,12 @@ class CSVReaderHelper:
 
     def has_csv_header(self):
         """
-        Checks if csv file has header
+        Checks if csv file has header, i.e. if the first line names settings
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_line = next(reader(self, dialect="unix"), ())
         self.file.seek(0)
-        return has_header
+        return any(name in CONFIG_FIELDS for name in first_line)
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From 399127b62c965a5811742ba36e67008f2ff0d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 20/24] fix: use the defaults for columns missing from a csv
 line

---
 src/disc_solver/solve/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 34f188d..575b817 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -190,11 +190,13 @@ def add_labels(seq, *, label=''):
 
 def filter_csv_columns(seq, *, columns):
     """
-    Only pass through specified columns
+    Only pass through specified columns, where there is a value
     """
     new_seq = []
     for d in seq:
-        new_seq.append({k: v for k, v in d.items() if k in columns})
+        new_seq.append({
+            k: v for k, v in d.items() if k in columns and v is not None
+        })
     return new_seq
 
 
-- 
2.43.0


From 1540c69d7ba47a361d84aebf97cd5a266c9645fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 21/24] fix: close the file of open_or_stream when its body
 fails

---
 src/disc_solver/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index f513ab1..930266d 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -335,18 +335,16 @@ def open_or_stream(filename, *args, **kwargs):
     Passing '-' as the filename uses stdout.
     """
     if filename == '-':
-        file = None
         yield stdout
     elif isinstance(filename, IOBase):
-        file = None
         yield filename
     else:
         # pylint: disable=consider-using-with
         file = open(filename, *args, **kwargs)
-        yield file
-
-    if file is not None:
-        file.close()
+        try:
+            yield file
+        finally:
+            file.close()
 
 
 def main_entry_point_wrapper(description, **kwargs):
-- 
2.43.0


From a5b5f3966e0cab7849a2090b6d30d97d81f3c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 22/24] fix: report why a pool could not be started

---
 src/disc_solver/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 930266d..f62f7e4 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -383,8 +383,8 @@ def nicer_mp_pool(*args, **kwargs):
     """
     Wrapper around multiprocessing.Pool - maybe look at forks or alternatives?
     """
+    pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
     try:
-        pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
         yield pool
     finally:
         # terminate is usually called, which can break stuff if there's a
-- 
2.43.0


From 83cbbbe6a6ecc4c188e77c32770371d733b8ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 23/24] fix: signs of the validation of the polar induction
 equation

---
 src/disc_solver/analyse/validate_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..789592b 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
-        ) + values.B_φ * (
+        ) - values.B_φ * (
             values.η_H * (
                 values.norm_B_r * (1 - initial_conditions.β) -
                 values.norm_B_θ * tan(values.angles)
             ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From d29f57dafe35195100c9a00a1189ec4fb26f0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 24/24] fix: consider differences of both signs in the
 statistics

---
 src/disc_solver/analyse/stats.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..a4a8569 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -69,27 +69,27 @@ def compute_max_difference_in_equations(solution):
     """
     values = get_values(solution)
     return {
-        "max_diff_continuity": max(validate_continuity(
+        "max_diff_continuity": max(absolute(validate_continuity(
             values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
+        ))),
+        "max_diff_solenoid": max(absolute(validate_solenoid(
             values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
+        ))),
+        "max_diff_radial_momentum": max(absolute(validate_radial_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
+        ))),
+        "max_diff_azimuthal_momentum": max(absolute(validate_azimuthal_mometum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
+        ))),
+        "max_diff_polar_momentum": max(absolute(validate_polar_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
+        ))),
+        "max_diff_polar_induction": max(absolute(validate_polar_induction(
             values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+        ))),
+        "max_diff_E_φ": max(absolute(validate_E_φ(
             values.initial_conditions, values
-        )),
+        ))),
     }
 
 
-- 
2.43.0

