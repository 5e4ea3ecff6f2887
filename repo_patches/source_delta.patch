From eae20037801c03531331b62af880dcadb09bf508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 01/28] fix: histogram starts with a spurious count at the
 origin

The dummy value used to create the bins was left in the counts.
---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..4cc257d 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # remove the count of the arbitrary value
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 468e0e096367d657d0d1b13c7a868d0297450099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 02/28] fix: histogram counts the last block twice or not at
 all

Which data still has to be added was derived from the last write of the
trajectories: the final update added the last complete block a second time,
lost an incomplete one if trajectories were written to file, and used the
wrong steps for strides > 1 if they were not. Keep track of the last update
in the action itself.
---
 bdld/actions/histogram_action.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..717cc0a 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0  # step of the last added trajectory data
         print()
 
     def run(self, step: int):
@@ -103,9 +104,7 @@ class HistogramAction(Action):
         :param step: current simulation step
         """
         if step % self.update_stride == 0:
-            data = self.get_traj_data(step)
-            # flatten the first 2 dimensions (combine all times)
-            self.histo.add(data.reshape(-1, data.shape[-1]))
+            self.update(step)
         if self.write_stride and step % self.write_stride == 0:
             self.write(step)
         if step in self.reset:
@@ -115,31 +114,35 @@ class HistogramAction(Action):
     def final_run(self, step: int):
         """Same as run without stride checks
 
+        :param step: current simulation step
+        """
+        self.update(step)
+        if self.filename:
+            self.write()
+
+    def update(self, step: int) -> None:
+        """Add all trajectory data since the last update to the histogram
+
         :param step: current simulation step
         """
         data = self.get_traj_data(step)
         # flatten the first 2 dimensions (combine all times)
         self.histo.add(data.reshape(-1, data.shape[-1]))
-        if self.filename:
-            self.write()
+        self.last_update = step
 
     def get_traj_data(self, step: int) -> np.ndarray:
-        """Get the right data from the trajectory array
+        """Get the data from the trajectory array that was not added before
+
+        This is independent of if and when the trajectories are written to file
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
         return get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
 
     def write(self, step: int = None):
-- 
2.43.0


From 73361d399b2243a8c89cf892e880e9dc6a1a73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 03/28] fix: final write repeats old rows if there is no new
 data point

If the last write was at the end of the data array and the simulation ended
before the next data point (e.g. not a multiple of the stride), all rows of
the array were written again (or uninitialized ones if there were none yet).
---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..4fe3b3d 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check for no new data points because of the modulo operations below
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From f3222d593e2faad2a28d938601c43d970ba1a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 04/28] fix: birth and death swapped when recalculating the
 probabilities

Events are (duplicated, killed) tuples: a particle with beta > 0 has to be
killed, as it is done in the variant without recalculation.
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..7fa222d 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
+                        curr_event = (rand_other, i)
                         self.stats.kill_count += 1
                     elif beta[i] < 0:
-                        curr_event = (rand_other, i)
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From 75c192edaabdf419e42b5ab100e62b805e0cd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 05/28] fix: birth-death events of zero probability for a
 random number of 0

The random numbers are in [0, 1), so a zero probability was accepted for 0.0.
When recalculating probabilities this performed an undefined event.
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 7fa222d..874eba6 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -176,7 +176,7 @@ class BirthDeath(Action):
             kill_list: List[int] = []
 
             prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)
-            event_particles = np.where(rand <= prob)[0]
+            event_particles = np.where(rand < prob)[0]
             self.rng.shuffle(event_particles)
             for i in event_particles:
                 if i not in kill_list:  # the move was accepted from the old beta!
@@ -205,7 +205,7 @@ class BirthDeath(Action):
                     self.stats.dup_attempts += 1
 
                 prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)
-                if rand[i] <= prob:
+                if rand[i] < prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
                         curr_event = (rand_other, i)
-- 
2.43.0


From d552e275993ac66c41f95a8011bb119d984988fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 06/28] fix: birth-death crashes for a single particle

With the additive approximation beta is not zero for a single particle, but
there is no other particle for the event.
---
 bdld/actions/birth_death.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 874eba6..2ef7bce 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -161,6 +161,8 @@ class BirthDeath(Action):
         :return event_list: List with Tuples (dup_i, kill_i) of the accepted events
         """
         num_part = len(self.particles)
+        if num_part < 2:  # events need another particle
+            return []
 
         beta = self.calc_betas()  # initial calculation of betas
         rand = self.rng.random(num_part)  # rng for all at once
-- 
2.43.0


From 65998d0feb51e6a77d96c26ea138a18b2ebfc14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 07/28] fix: birth-death not seeded if the seed is 0

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..0c881f4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From c75c2fa3e881ef6c3c590eb7e6913b1d8e64ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 08/28] fix: scaling of the Mueller-Brown potential changes all
 other instances

The module-wide coefficients were scaled in place, so every further instance
scaled all existing potentials again.
---
 bdld/potential/mueller_brown.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..3da3a58 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 8fef5b938a9da7737d6259cd4c1aef6461fe6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 09/28] fix: delta-f can not be used in more than one dimension

The masks have one value per grid point and are applied to the flattened FES,
but were required to have the shape of the FES.
---
 bdld/actions/delta_f_action.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..ac113ea 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -140,8 +140,8 @@ class DeltaFAction(Action):
 
 
 def check_mask_shapes(masks: List[np.ndarray], fes: np.ndarray) -> None:
-    """Check if the shape of all masks is equal to the shape of the FES"""
-    if any(mask.shape != fes.shape for mask in masks):
+    """Check if all (flat) masks have one value per point of the FES"""
+    if any(mask.shape != (fes.size,) for mask in masks):
         raise ValueError("Shapes of mask not equal to FES shape")
 
 
-- 
2.43.0


From 05825997cc04d0d57113eab7b374b867baec83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 10/28] fix: points of 3d grids are not in row-major order

The points did not belong to the data values at the same position.
---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From 6d53d1c14ac253103442332017db298fded036b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 11/28] fix: 3d histograms and free energy surfaces are
 silently not written

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..c6167ba 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -210,6 +210,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.reshape(-1)],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From 04cf9bcac6fad4e8f11cd6d8cc418325d920668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 12/28] fix: periodic boundaries only handle moves of less than
 one period

Particles that moved further stayed outside of the potential range.
---
 bdld/potential/potential.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..e2ade0b 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -173,7 +173,6 @@ class Potential:
         :param mom: momentum of particle per direction (not actually changed)
         """
         for i, x in enumerate(pos):
-            if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
-            elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+            if x < self.ranges[i][0] or x > self.ranges[i][1]:
+                length = self.ranges[i][1] - self.ranges[i][0]
+                pos[i] = self.ranges[i][0] + (x - self.ranges[i][0]) % length
-- 
2.43.0


From 050609463e8799805a25ea73819d70aac12ece24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 13/28] fix: periodic plots of the FES ask for a filename on
 stdin

The step was appended after the extension of the plot filename, so matplotlib
could not determine the file type (e.g. "fes.png_500") and the simulation
stopped to ask for another filename.
---
 bdld/actions/fes_action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..85b9d86 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -168,7 +169,8 @@ class FesAction(Action):
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                root, ext = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{ext}"  # keep file type
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From a88ca24b897013ae2abcc0f77e7b896d4c66d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 14/28] fix: kt option of the FES is ignored

The compulsory option was parsed, but the value of the LD was used instead.
---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index ac113ea..14e6891 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 85b9d86..b179686 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -42,6 +42,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -60,6 +61,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy, defaults to the one of the LD
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -67,7 +69,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 0c881f4..2475443 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -346,6 +346,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From 8e8f3884241e97f0b939f66927e68c16645538e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 15/28] fix: headers of delta-f and particle distribution files
 miss the first column

---
 bdld/actions/delta_f_action.py        | 5 +++--
 bdld/actions/particle_distribution.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 14e6891..0bc54a2 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -77,11 +77,12 @@ class DeltaFAction(Action):
         # writing
         self.filename = filename
         if self.filename:
-            fields = [f"delta_f.1-{i}" for i in range(2, len(self.masks) + 1)]
+            delta_f_fields = [f"delta_f.1-{i}" for i in range(2, len(self.masks) + 1)]
+            fields = ["time"] + delta_f_fields
             constants = OrderedDict([("kt", self.kt)])
             if ref:
                 for i, val in enumerate(self.ref_values):
-                    constants[f"ref_{fields[i]}"] = val
+                    constants[f"ref_{delta_f_fields[i]}"] = val
             initialize_file(self.filename, fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..2acbfc0 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -67,7 +67,8 @@ class ParticleDistributionAction(Action):
         # writing
         self.filename = filename
         if self.filename:
-            fields = [f"n_particles_{i}" for i in range(len(self.states))]
+            fields = ["timestep"]
+            fields += [f"n_particles_{i}" for i in range(len(self.states))]
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-- 
2.43.0


From e36c95ac02993b81728e712a35612f8671c95ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 16/28] fix: coefficient files with a single row are not
 accepted

---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..8c7fd85 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))  # also for single row
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From e8c421721c1a8ff5bdff58b5ccff93ee0dee77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 17/28] fix: more than 3 dimensions are not rejected by the
 input parser

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From 6502908f35e631ea28ea0982fe73fd7d9c192332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:17 +0000
Subject: [PATCH 18/28] fix: birth-death corrections are nan if Boltzmann
 weights over- or underflow

---
 bdld/main.py                | 5 ++++-
 bdld/potential/potential.py | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 2475443..07f8fea 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -294,7 +294,10 @@ def bd_prob_density(pot: Potential, bd_bw: np.ndarray, kt: float) -> Grid:
         if tmp_grid_points % 2 == 0:
             tmp_grid_points += 1  # odd number is better for convolution
         n_grid_points.append(tmp_grid_points)
-    return pot.calculate_probability_density(kt, pot.ranges, n_grid_points)
+    prob = pot.calculate_probability_density(kt, pot.ranges, n_grid_points)
+    # the logarithm of the density is needed: avoid zeros due to underflow
+    prob.data = np.maximum(prob.data, np.finfo(float).tiny)
+    return prob
 
 
 def setup_trajectories(options: Dict, ld: LdType) -> TrajectoryAction:
diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index e2ade0b..cb13e04 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -92,6 +92,7 @@ class Potential:
             raise ValueError("Dimension of grid_points do not match potential")
         fes = grid.from_npoints(ranges, grid_points)
         fes.set_from_func(self.energy)
+        fes -= np.min(fes.data)  # avoid overflow, has no effect after normalization
         prob = np.exp(-fes / kt)
         # normalize with volume element from stepsizes
         prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
-- 
2.43.0


From 40a9ef13d425d9993d2d7f39e92862e35c1fbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:22 +0000
Subject: [PATCH 19/28] fix: third coefficient of the Mueller-Brown potential

The documented and published value is -170
---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 3da3a58..74e301c 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -6,7 +6,7 @@ import numpy as np
 from bdld.potential.potential import Potential
 
 # coefficients
-A = np.array([-200.0, -100.0, -175.0, 15.0])
+A = np.array([-200.0, -100.0, -170.0, 15.0])
 a = np.array([-1.0, -1.0, -6.5, 0.7])
 b = np.array([0.0, 0.0, 11.0, 0.6])
 c = np.array([-10.0, -10.0, -6.5, 0.7])
-- 
2.43.0


From 617a735fec59e27132b94123f742b245f46df489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:40 +0000
Subject: [PATCH 20/28] fix: unknown boundary conditions are silently ignored

The run proceeded without any boundary condition if the value of the
boundary-condition option was misspelled.
---
 bdld/inputparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..caffacc 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -237,7 +237,13 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        allowed_boundary_conditions = Condition(
+            lambda x: x in ["periodic", "reflective"],
+            "must be either 'periodic' or 'reflective'",
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_conditions)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From f4175a15fc94839769baf757a0a1f4a3f8144aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:01 +0000
Subject: [PATCH 21/28] fix: coefficient files are not accepted in one
 dimension

The documented alternative of specifying the coefficients by file was only
available in more than one dimension.
---
 bdld/inputparser.py | 1 +
 bdld/main.py        | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index caffacc..0321804 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -214,6 +214,7 @@ class Input:
                     type_option,
                     n_dim_option,
                     InputOption("coeffs", [float], False),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index 07f8fea..6871999 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:  # alternatively given by file
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], options["n_dim"]
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 8ee949803460f863d59aa7415e77c317010f825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:46 +0000
Subject: [PATCH 22/28] fix: errors while reading the input file are ignored

ConfigParser.read() ignores all I/O errors, the run was started with the
part of the input that was read before the error.
---
 bdld/inputparser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 0321804..519c7f7 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -148,13 +148,11 @@ class Input:
 
         Does then launch the config for the individual sections
         """
-        # test that file can be opened -> raises FileNotFoundError if not
-        with open(self.filename) as _:
-            pass
-
-        print(f"Parsing input from file '{self.filename}'\n")
         infile = configparser.ConfigParser()
-        infile.read(self.filename)
+        # raises FileNotFoundError if file can't be opened
+        with open(self.filename) as f:
+            print(f"Parsing input from file '{self.filename}'\n")
+            infile.read_file(f)  # read() would silently ignore errors
 
         for required_sec in ["ld", "potential", "particles"]:
             if required_sec not in infile.sections():
-- 
2.43.0


From 159b5c4f9b706392eb272ac61b74d145afbeac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:46 +0000
Subject: [PATCH 23/28] fix: inconsistent dimensions of state ranges are not
 always detected

The chained comparison was only true if both conditions failed.
---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 519c7f7..2d47936 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -473,7 +473,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From 6868e8faf1ccf4f671f5c6b63878801650c04013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:01 +0000
Subject: [PATCH 24/28] fix: wrong number of values of ranges and positions is
 not detected

The lists of lower and upper bounds of the potential and the histogram and
the initial positions have to have one value per dimension. Missing and
surplus values were ignored, or failed only in the first step.
---
 bdld/inputparser.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 2d47936..221ad3f 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -123,9 +123,12 @@ class Input:
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
-    # @staticmethod
-    # def match_dimensions(n_dim: int) -> Condition:
-    # return Condition(lambda x: x == n_dim, f"wrong dimensions (must be {n_dim})")
+    @staticmethod
+    def match_dimensions(n_dim: int) -> Condition:
+        """Condition that a list has one value per dimension"""
+        return Condition(
+            lambda lst: len(lst) == n_dim, f"wrong dimensions (must be {n_dim} values)"
+        )
 
     def __init__(self, filename: str) -> None:
         self.filename = filename
@@ -221,8 +224,8 @@ class Input:
                     type_option,
                     n_dim_option,
                     InputOption("coeffs-file", str, True),
-                    InputOption("min", [float], True),
-                    InputOption("max", [float], True),
+                    InputOption("min", [float], True, Input.match_dimensions(n_dim)),
+                    InputOption("max", [float], True, Input.match_dimensions(n_dim)),
                 ]
         elif pot_type == "mueller-brown":
             options = [
@@ -271,8 +274,9 @@ class Input:
         options.append(init_dist_option)
 
         if init_dist in ["random-pos", "fractions-pos"]:
+            pos_dims = Input.match_dimensions(cast(int, self.potential["n_dim"]))
             for i, _ in enumerate(get_all_numbered_values(section, "pos")):
-                options.append(InputOption(f"pos{i+1}", [float], True))
+                options.append(InputOption(f"pos{i+1}", [float], True, pos_dims))
 
         if init_dist == "fractions-pos":
             options.append(InputOption("fractions", [float], True))
@@ -329,9 +333,10 @@ class Input:
                 InputOption("bins", int, True, Input.positive),
             ]
         else:
+            dims = Input.match_dimensions(cast(int, self.potential["n_dim"]))
             options += [
-                InputOption("min", [float], True),
-                InputOption("max", [float], True),
+                InputOption("min", [float], True, dims),
+                InputOption("max", [float], True, dims),
                 InputOption("bins", [int], True, Input.all_positive),
             ]
         self.histogram = self.parse_section(section, options)
-- 
2.43.0


From 8fdcba19376e2c6c81a50f61c5256b6bc848f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:04 +0000
Subject: [PATCH 25/28] fix: wrong number of values of state bounds is not
 detected

The bounds of the states of delta-f and particle-distribution have to have
one value per dimension. Surplus values were ignored, missing ones failed
only when the states were evaluated for the first time.
---
 bdld/inputparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 221ad3f..9d07df5 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -367,7 +367,7 @@ class Input:
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
             InputOption("fmt", str, False),
-        ] + numbered_state_options(section)
+        ] + numbered_state_options(section, cast(int, self.potential["n_dim"]))
 
         self.delta_f = self.parse_section(section, options)
 
@@ -378,7 +378,7 @@ class Input:
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
             InputOption("fmt", str, False),
-        ] + numbered_state_options(section)
+        ] + numbered_state_options(section, cast(int, self.potential["n_dim"]))
         self.particle_distribution = self.parse_section(section, options)
 
     @staticmethod
@@ -420,13 +420,16 @@ def get_all_numbered_values(
         counter += 1
 
 
-def numbered_state_options(section: configparser.SectionProxy) -> List[InputOption]:
+def numbered_state_options(
+    section: configparser.SectionProxy, n_dim: int
+) -> List[InputOption]:
     """Return list with 'state{i}_min' & 'state{i}_max' InputOptions in section
 
     This reads the keys of a section and adds two new options for each found state
     The state InputOptions are lists regardless of dimensions
 
     :param section: section of configparser to search through
+    :param n_dim: number of values each of the options needs to have
     :raises OptionError: if number of min and max options don't match
     :raises OptionError: if no min and max actions were found
     """
@@ -438,10 +441,11 @@ def numbered_state_options(section: configparser.SectionProxy) -> List[InputOpti
             section.name,
         )
     options = []
+    dims = Input.match_dimensions(n_dim)
     for i in range(n_states):
         options += [
-            InputOption(f"state{i+1}-min", [float], True),
-            InputOption(f"state{i+1}-max", [float], True),
+            InputOption(f"state{i+1}-min", [float], True, dims),
+            InputOption(f"state{i+1}-max", [float], True, dims),
         ]
     if not options:
         raise OptionError(
-- 
2.43.0


From de56b6160b7f989679027f2b468553dbfa63acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:54 +0000
Subject: [PATCH 26/28] fix: plot of 2d FES is transposed

The data of the grid has the first direction as first index, but imshow
expects the rows of the image (second direction) there.
---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index b179686..a230c80 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -255,7 +255,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # imshow expects the rows to be along the y-axis
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From a9d8a5b64104c0713370163641e30bf6ec8925ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 27/28] fix: wrong number of values of plot-domain is not
 detected

It was only noticed when the first plot was drawn, i.e. often only after
the whole simulation.
---
 bdld/inputparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 9d07df5..d5a3a98 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,6 +121,9 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
+    two_values = Condition(
+        lambda lst: len(lst) == 2, "must be two values (minimum and maximum)"
+    )
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     @staticmethod
@@ -353,7 +356,7 @@ class Input:
             InputOption("fmt", str, False),
             InputOption("plot-stride", int, False),
             InputOption("plot-filename", str, False),
-            InputOption("plot-domain", [float], False),
+            InputOption("plot-domain", [float], False, Input.two_values),
             InputOption("plot-title", str, False),
         ]
         self.fes = self.parse_section(section, options)
-- 
2.43.0


From 5648cbf1b0a543d6eda32b34c8a50133e034f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:51 +0000
Subject: [PATCH 28/28] fix: scaling factor of 0 is ignored for the
 Mueller-Brown potential

---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 74e301c..64a53fb 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -44,7 +44,7 @@ class MuellerBrownPotential(Potential):
 
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
-        self.scaling_factor = scaling_factor or 1.0
+        self.scaling_factor = 1.0 if scaling_factor is None else scaling_factor
         self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
-- 
2.43.0

