From f87efc4aae6b235f54c6c0d1c5c06e2517e90fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 01/26] fix: transpose the first field of a transposed zoned
 rectangle domain

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..4f6058b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
-- 
2.43.0


From d539f875a56947d37a315de277ea4e27b0e9e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 02/26] fix: space the first fields of a zoned domain along the
 oriented lengths

---
 ghedt/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 4f6058b..2300ce0 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -290,8 +290,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From addbd4fad4827f6522604ff9edbbb3ca53af95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 03/26] fix: keep the largest near-square field within the
 upper limit

---
 ghedt/domains.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2300ce0..9413489 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -20,6 +20,9 @@ def square_and_near_square(lower: int,
 
     for i in range(lower, upper+1):
         for j in range(2):
+            # no side may have more than the upper number of boreholes
+            if i + j > upper:
+                continue
             coordinates = \
                 dt.coordinates.rectangle(i, i+j, B, B)
 
-- 
2.43.0


From 3dc4f049b4b7bfd4cdeeba2050e3e912c84b253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 04/26] fix: add the missing side to the U-shaped field

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From 06bda1aef8a4a8597ccaff5c0942f164492153d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 05/26] fix: keep every field when reordering a domain with
 equal sizes

---
 ghedt/domains.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 9413489..fa9fa57 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -410,21 +410,8 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    # (fields with the same number of boreholes keep their order)
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From 38342db6c9b84bc255fbe592da8ffe21b0de90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 06/26] fix: polygonal domains without a building, and without
 empty fields

---
 ghedt/domains.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index fa9fa57..3422ae5 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -378,9 +378,12 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             # Remove boreholes inside of building
             if len(new_coordinates) == 0:
                 continue
-            new_coordinates = dt.feature_recognition.remove_cutout(
-                new_coordinates, boundary=building_description,
-                remove_inside=True, keep_contour=False)
+            if len(building_description) > 0:
+                new_coordinates = dt.feature_recognition.remove_cutout(
+                    new_coordinates, boundary=building_description,
+                    remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
-- 
2.43.0


From a8cea7c512f476172dbdba4b5e5f18b1a195409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 07/26] fix: search the first inner domain when the tacked on
 field is selected

---
 ghedt/search_routines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..a7a7064 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -251,8 +251,10 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (unless that one borehole is what was selected)
+        if selection_key > 0:
+            selection_key -= 1
+        inner_domain = coordinates_domain_nested[selection_key]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 1a8ba0d8128557d9a2af33fad857588105e1f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 08/26] fix: define the sign of an excess temperature of
 exactly zero

---
 ghedt/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..4d51b48 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -98,8 +98,10 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1 (-1 for 0, which is an acceptable excess temperature)
     """
+    if x == 0:
+        return -1
     return int(abs(x) / x)
 
 
-- 
2.43.0


From e25d28f952c2c1e1d59e24d02f61fa018593f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 09/26] fix: accept a bound that is exactly the root in
 solve_root

---
 ghedt/peak_load_analysis_tool/equivalance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..15e10d4 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -38,6 +38,11 @@ def solve_root(x, objective_function, lower=None, upper=None,
     # bracketed
     minus = objective_function(lower)
     plus = objective_function(upper)
+    # a bound may itself be the root
+    if minus == 0:
+        return lower
+    if plus == 0:
+        return upper
     # get signs of upper and lower thermal conductivity bounds
     kg_minus_sign = int(minus / abs(minus))
     kg_plus_sign = int(plus / abs(plus))
-- 
2.43.0


From ed345eafc17121fffa9fe51bda9b039e58d4baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 10/26] fix: size an oversized field to the minimum height, not
 the maximum

---
 ghedt/ground_heat_exchangers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..a37e0d2 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -334,10 +334,13 @@ class GHE(BaseGHE):
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
-            self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
-            upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
-            maxiter=50)
+        # (there is nothing to solve for if the minimum height is sufficient)
+        if local_objective(self.sim_params.min_Height) > 0.0:
+            plat.equivalance.solve_root(
+                self.bhe.b.H, local_objective,
+                lower=self.sim_params.min_Height,
+                upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
+                maxiter=50)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From a2729f2c75712d5a7374295d1c248a49d730db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 11/26] fix: a single g-function only answers for its own
 height

---
 ghedt/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..b744832 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,12 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
                     return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                elif abs(min(height_values) - H_eq) < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From bd0ca896865502c404e4d3370fe63a13f40f3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 12/26] fix: rebuild the g-function interpolation table when
 its options change

---
 ghedt/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index b744832..9588f48 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -206,7 +206,8 @@ class GFunction:
                 kind = curves_by_kind[len(height_values)]
 
         # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        if self.interpolation_table.get('options') != (kind, fill_value):
+            self.interpolation_table['options'] = (kind, fill_value)
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From abb538754c0466f9ee5571d46eaaa6212de2601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 13/26] fix: hourly simulation of a period that is not a number
 of whole years

---
 ghedt/ground_heat_exchangers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index a37e0d2..7a70cd0 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -307,7 +307,8 @@ class GHE(BaseGHE):
             # How many times does q need to be repeated?
             n_years = int(np.ceil(n_hours / 8760))
             Q_dot = Q_dot * n_years
-            Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
+            # Convert loads to rejection, for the hours being simulated
+            Q_dot = -1. * np.array(Q_dot)[:n_hours]
             t = np.arange(1, n_hours + 1, 1)
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, t, g)
-- 
2.43.0


From af4767013b12983666d76bbd51d0da7dce0e682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 14/26] fix: no duplicate time when the short and long
 g-functions meet

---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 7a70cd0..59385b3 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -95,7 +95,7 @@ class BaseGHE:
             # find where to stop in sts
             i = 0
             value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while value < min_log_time_lts:
                 i += 1
                 value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
-- 
2.43.0


From 07d39e6d43df41af2158d0f10dc83cd39c27872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 15/26] fix: print the header of the simulation results

---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 59385b3..76d730f 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -236,7 +236,7 @@ class GHE(BaseGHE):
     def __repr__(self):
         output = BaseGHE.__repr__(self)
 
-        self.header('Simulation Results')
+        output += self.header('Simulation Results')
         if len(self.HPEFT) > 0:
             max_HP_EFT = max(self.HPEFT)
             min_HP_EFT = min(self.HPEFT)
-- 
2.43.0


From 95c2e1e387c37a2b6fe3e26c4ae0ae9cb1e3db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 16/26] fix: print the Reynolds number of a circular pipe for
 U-tubes

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..e0334a4 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -49,7 +49,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From 48e2c5b8da6dc29732e4838e33b21e3b28bbed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 17/26] fix: check the bi-rectangle inputs only for the
 routines that need them

---
 ghedt/media.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/media.py b/ghedt/media.py
index 8345d29..f1990a8 100644
--- a/ghedt/media.py
+++ b/ghedt/media.py
@@ -30,7 +30,7 @@ class GeometricConstraints:
             assert self.length is not None
             assert self.B_min is not None
             assert self.B_max_x is not None
-        elif method == 'bi-rectangle' or 'bi-zoned':
+        elif method == 'bi-rectangle' or method == 'bi-zoned':
             assert self.width is not None
             assert self.length is not None
             assert self.B_min is not None
-- 
2.43.0


From 149dba1fc57b18baaff5b82aed2a80ab635e71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 18/26] fix: conserve the energy of a month whose peaks are
 ignored

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..643a086 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -597,6 +597,9 @@ class HybridLoad:
                 # This is also used for the case where ipf[i] is False
                 # A more sophisticated default could be use, like placing the
                 # peaks on the 10th and 20th
+                # (the average has to contain the energy of ignored peaks)
+                mload = cl.monthly_total[mi] - hl.monthly_total[mi]
+                mrate = mload / (monthdays(mi) * 24)
                 lastavghour = lastmonthhour(i)
                 self.load = np.append(self.load, mrate)
                 self.hour = np.append(self.hour, lastavghour)
-- 
2.43.0


From da1d0b46b49277bce6f79548924738d72c35e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 19/26] fix: split the parallel flow between all of the U-tubes
 in a borehole

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index e0334a4..4a22405 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -11,7 +11,8 @@ class BasePipe(object):
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
         self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+                                                            config,
+                                                            pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +79,11 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
-- 
2.43.0


From bfb14745e5431119061f861f457cde0425cbc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 20/26] fix: a changed borehole flow rate also changes the flow
 in the pipes

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 4a22405..fae5d10 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -145,6 +145,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, None)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -198,6 +200,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, self.config, self.n_pipes)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -402,6 +406,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = m_flow_borehole
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 85ca9bb7b34f2c920b8418c665030cb09716df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 21/26] fix: the borehole resistance for a new flow rate uses
 its convection

---
 .../borehole_heat_exchangers.py                | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index fae5d10..9f2d345 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -92,20 +92,14 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then update it and use
+        # the new values
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(
+                m_flow_borehole=m_flow_borehole, fluid=fluid)
 
         R_b_star = self.effective_borehole_thermal_resistance(
-            m_flow_borehole, fluid.cp)
+            self.m_flow_borehole, self.fluid.cp)
 
         return R_b_star
 
-- 
2.43.0


From b0b24a196de9529e876e1dc54da63d4869bce437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 22/26] fix: scale the average rejection of the synthetic load
 profile to its units

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 643a086..9dc83c1 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -89,7 +89,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From 88fcf30195ade4b7437aa466a9602a88fdfab132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 23/26] fix: plot the hourly rejection and extraction loads
 that there are

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 9dc83c1..c1cecf6 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -685,12 +685,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
-- 
2.43.0


From 2279bfd340935d936cde4f7231e34756752f6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 24/26] fix: keep the two-day temperatures of every month at
 its position

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index c1cecf6..41bda38 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -289,6 +289,12 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # No load does not change the fluid temperature (there is one
+                # entry for every month)
+                self.monthly_two_day_fluid_temps_pk.append(
+                    [0] * len(current_two_day_load))
+                self.monthly_two_day_fluid_temps_nm.append(
+                    [0] * len(current_two_day_load))
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From 4b8bee1c0adc020e508b21ee15ffbc5ee4621bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 25/26] fix: plot extraction temperatures as extraction and
 rejection as rejection

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 41bda38..979ba79 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -759,40 +759,40 @@ class HybridLoad:
         hl = self.extraction
 
         if extraction:
-            # plot two day (48 hour) fluid temperatures for cooling with peak
+            # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_pk[month_num],
+                    hl.monthly_two_day_fluid_temps_pk[month_num],
                     'k--', label='Peak Extraction', zorder=0)
-            # plot two day (48 hour) fluid temperatures for cooling with nominal
+            # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_nm[month_num],
+                    hl.monthly_two_day_fluid_temps_nm[month_num],
                     'b-', label='Extraction', zorder=1)
             # Draw horizontal line from max time to fluid sim
-            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
-                            cl.monthly_peak_duration[month_num])
-            pk_cl_duration = cl.monthly_peak_duration[month_num]
-            pk_cl_duration_rounded = round(pk_cl_duration, 1)
-            new_ticks.append(pk_cl_duration_rounded)
+            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
+                            hl.monthly_peak_duration[month_num])
+            pk_hl_duration = hl.monthly_peak_duration[month_num]
+            pk_hl_duration_rounded = round(pk_hl_duration, 1)
+            new_ticks.append(pk_hl_duration_rounded)
 
         if rejection:
-            # plot two day (48 hour) fluid temperatures for heating with peak
+            # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_pk[month_num],
+                    cl.monthly_two_day_fluid_temps_pk[month_num],
                     'k.', label='Peak Rejection', zorder=0)
-            # plot two day (48 hour) fluid temperatures for heating with nominal
+            # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_nm[month_num],
+                    cl.monthly_two_day_fluid_temps_nm[month_num],
                     'r-.', label='Rejection', zorder=1)
-            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
-                            hl.monthly_peak_duration[month_num])
-            # duration of monthly peak htg load in hours
-            pk_hl_duration = hl.monthly_peak_duration[month_num]
-            pk_hl_duration_rounded = round(pk_hl_duration, 1)
-            new_ticks.append(pk_hl_duration_rounded)
+            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
+                            cl.monthly_peak_duration[month_num])
+            # duration of monthly peak clg load in hours
+            pk_cl_duration = cl.monthly_peak_duration[month_num]
+            pk_cl_duration_rounded = round(pk_cl_duration, 1)
+            new_ticks.append(pk_cl_duration_rounded)
 
         ax.set_xticks(list(ax.get_xticks()) + new_ticks)
 
-- 
2.43.0


From 9286d59653d651c2f4b44319c485fd4ce17b5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 26/26] fix: export and print the g-function of boreholes with
 few short time steps

---
 ghedt/ground_heat_exchangers.py | 6 ++++--
 ghedt/search_routines.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 76d730f..01c019d 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -263,8 +263,10 @@ class GHE(BaseGHE):
         total_g_values = g.x.size
         number_lts_g_values = 27
         number_sts_g_values = 50
-        sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                     number_sts_g_values).tolist())
+        # every value is taken when there are fewer than number_sts_g_values
+        sts_step_size = max(1, int(np.floor(
+            (total_g_values - number_lts_g_values) /
+            number_sts_g_values).tolist()))
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index a7a7064..94f64fd 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -398,8 +398,10 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     total_g_values = g.x.size
     number_lts_g_values = 27
     number_sts_g_values = 30
-    sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                 number_sts_g_values).tolist())
+    # every value is taken when there are fewer than number_sts_g_values
+    sts_step_size = max(1, int(np.floor(
+        (total_g_values - number_lts_g_values) /
+        number_sts_g_values).tolist()))
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0

