From 56a50a003eb75488e56b2b903ebb3deeb80d18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 01/21] fix: reject nan where validation requires a bounded
 number or array

---
 validate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..95e83fd 100644
--- a/validate.py
+++ b/validate.py
@@ -158,6 +158,11 @@ def _number_bounds(
         upper = np.greater_equal
         message_addition = "than"
 
+    # not a number lies within no bounds
+    if np.isnan(number) and (np.isfinite(lower_bound) 
+            or np.isfinite(upper_bound)):
+        raise ValueError(f"The {name} argument must be a number, not nan")
+
     # try lower bound
     if lower(number, lower_bound):
         raise_error = True
@@ -298,6 +303,12 @@ def _array_bounds(
         upper = np.greater_equal
         message_addition = "than"
 
+    # not a number lies within no bounds
+    if np.any(np.isnan(array)) and (np.isfinite(lower_bound) 
+            or np.isfinite(upper_bound)):
+        raise ValueError(f"The {array_name} argument must contain solely "
+            "numbers, not nan")
+
     # try lower bound
     if np.any(lower(array, lower_bound)):
         raise_error = True
-- 
2.43.0


From b53d2183535dbf30200d19fcd240aaa0436ebdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 02/21] fix: reading masked grid data no longer overwrites the
 stored data

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..39899c7 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -160,7 +160,7 @@ class GridProperty:
             The grid property data.
         """
         masked = validate.boolean(masked, "masked")
-        data = self.data
+        data = np.copy(self.data)
 
         if masked and self.mask is not None:
             data[self.mask] = np.nan
-- 
2.43.0


From f46555681c09d29989bf8bd085619bf5458cc0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 03/21] fix: save the grid diagnostics with the grid

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index d1a05a9..343de70 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,7 +209,7 @@ class ShallotGrid:
                 gradient.save_gradient(directory)
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
-- 
2.43.0


From 93ea9d39054c182bfb5bd8465b87ff3590b97464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 04/21] fix: upper y limit of the ring system plot follows the
 y shift

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..cca8ab3 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -697,7 +697,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From 80b2f43b67b5c1b1e18d206788ddfa6b5dd61eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 05/21] fix: an interrupted grid build can be resumed from its
 temporary folder

---
 Shallot.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 343de70..ca73eed 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -688,10 +688,7 @@ class ShallotGrid:
         This method is used to create the temporary save folder used for
         intermittent saving during the building of the grid.
         """
-        if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
-            self.logger.debug("cleared temp folder")
-        
+        self._delete_temp_save_dir()
         os.mkdir(TEMP_SAVE_DIR)
 
  
@@ -700,8 +697,15 @@ class ShallotGrid:
         This method is used to delete the temporary save folder used for
         intermittent saving during the building of the grid.
         """
+        discarded_dir = f"{TEMP_SAVE_DIR}_discarded"
+        if os.path.exists(discarded_dir):
+            shutil.rmtree(discarded_dir)
+
         if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
+            # moved first, an interrupted removal would otherwise leave a
+            # folder without the y value, which loads as a complete grid
+            os.rename(TEMP_SAVE_DIR, discarded_dir)
+            shutil.rmtree(discarded_dir)
             self.logger.debug("deleted temp folder")
 
  
@@ -1001,7 +1005,10 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+
+        # other builds leave the progress of an interrupted build alone
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From 6b6fcd26918fb5d0305bebe53e60dc4cb3a5e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 06/21] fix: grid point indices beyond the grid are refused by
 validation

---
 Shallot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index ca73eed..cf81dbd 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2088,11 +2088,11 @@ class ShallotGrid:
         # validations
         max_y, max_x, max_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=max_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=max_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=max_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
-- 
2.43.0


From d396ad742e550f80b4122a6d88af159fe27b8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 07/21] fix: the closest grid point uses the impact parameters
 of the grid

---
 Shallot.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index cf81dbd..e4452ec 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1987,19 +1987,12 @@ class ShallotGrid:
         
         # get grid parameters
         dx = self.parameters.dx.flatten()
-        x_min, x_max = dx[0], dx[-1]
-        x_num = len(dx)
-        
         dy = self.parameters.dy.flatten()
-        y_min, y_max = dy[0], dy[-1]
-        y_num = len(dy)
 
         rf_array = self.parameters.rf_array
         
         # construct position grid
-        yy, xx = np.mgrid[:y_num, :x_num]
-        xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy, xx = np.meshgrid(dy, dx, indexing="ij")
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 3ca328fa6e257e0c5e1ea2503e3d9150d2c2d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 08/21] fix: removing gradients handles repeated indices and
 removing all of them

---
 Shallot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index e4452ec..98ede21 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1551,11 +1551,14 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
 
+        if len(self.gradients) == 0:
+            self.gradients = None
+
         self._reset_gradient_fit()
 
  
-- 
2.43.0


From 3e9544d2e9ecac2c37a915c8dc466393b78ca67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 09/21] fix: refused eclipse parameters leave the grid
 unchanged

---
 Shallot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 98ede21..5245629 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1582,12 +1582,16 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
-        self._eclipse_duration = validate.number(eclipse_duration, 
+        eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
-        self._transverse_velocity = validate.number(transverse_velocity, 
+        transverse_velocity = validate.number(transverse_velocity, 
             "transverse_velocity", lower_bound=0.)
-        self._limb_darkening = validate.number(limb_darkening, 
+        limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
+
+        self._eclipse_duration = eclipse_duration
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
         
         # gradients and gradient fit reset due to eclipse duration dependency
         if self.gradients is not None:
-- 
2.43.0


From b087f4d0fe2b02eff8d7145221a15acb839cfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 10/21] fix: gradients are loaded with the grid and do not
 overwrite each other

---
 Shallot.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 5245629..83ec0ff 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -205,8 +205,13 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            # separate folders keep the order and gradients at (nearly) the
+            # same position apart
+            for k, gradient in enumerate(self.gradients):
+                gradient_directory = f"{directory}/gradient_{k}"
+                if not os.path.exists(gradient_directory):
+                    os.mkdir(gradient_directory)
+                gradient.save_gradient(gradient_directory)
 
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
@@ -242,20 +247,24 @@ class ShallotGrid:
         except LoadError:
             self.logger.debug("no diagnostics found")
         
-        try:
-            self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
-            
-            if len(self.gradients) == 0:
-                self.gradients = None
-        
-        except LoadError:
+        gradients: list[GridGradient] = []
+        gradient_directory = f"{directory}/gradient_0"
+
+        while os.path.exists(gradient_directory):
+            names = [name for name in os.listdir(gradient_directory)
+                if name.startswith("gradient_")]
+            if len(names) != 1:
+                raise LoadError("grid gradient", gradient_directory)
+
+            gradient = GridGradient.load(f"{gradient_directory}/{names[0]}")
+            gradients.append(gradient)
+            gradient_directory = f"{directory}/gradient_{len(gradients)}"
+
+        if len(gradients) == 0:
+            self.gradients = None
             self.logger.debug("no gradients found")
+        else:
+            self.gradients = gradients
 
 
     @classmethod
-- 
2.43.0


From 3cd87b9fd45a58533dae5d4ad74aed86b7b625ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 11/21] fix: the mask of a grid gradient is loaded with it

---
 GridProperty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 39899c7..879c887 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -581,6 +581,11 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            # the mask can be set separately from the measured gradient
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From 85f65b2218ead06c9b1a6c20c89a04b8631cbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 12/21] fix: saving over an earlier save leaves none of its
 masks behind

---
 GridProperty.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 879c887..71dc9a4 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -301,6 +301,10 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         np.save(f"{directory}/{filename_data}", self.data)
         
+        filepath_mask = f"{directory}/{filename_data}_mask.npy"
+        if os.path.exists(filepath_mask):
+            os.remove(filepath_mask)
+
         if self.mask is not None:
             filename_mask = f"{filename_data}_mask"
             np.save(f"{directory}/{filename_mask}", self.mask)
@@ -539,6 +543,10 @@ class GridGradient(GridProperty):
         # save additional gradient information
         np.save(f"{gradient_directory}/position", np.array([self.position]))
 
+        filepath_mask_values = f"{gradient_directory}/mask_values.npy"
+        if os.path.exists(filepath_mask_values):
+            os.remove(filepath_mask_values)
+
         if self.measured_gradient is not None:
             mask_values = np.array([self.measured_gradient, 
                 self.orbital_scale, self.transmission_change, 
-- 
2.43.0


From 179df957eaa09b665f643e6f34e9c5c4c039cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 13/21] fix: the extension of the grid diagnostics is saved and
 loaded

---
 GridDiagnostics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..c09d393 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,11 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            filepath_extended = f"{directory}/extended.npy"
+            if os.path.exists(filepath_extended):
+                extended = np.load(filepath_extended)[0]
+                grid_diagnostics._extended = bool(extended)
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From 6f903fe933d74ffb080f772ff7052f2c21c40b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 14/21] fix: a resumed grid build keeps its diagnostics

---
 Shallot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 83ec0ff..fdc4239 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -190,6 +190,10 @@ class ShallotGrid:
         else:
             os.mkdir(directory)
 
+        # before the y value, an interrupted save can not lose the diagnostics
+        if self.diagnostics is not None:
+            self.diagnostics.save(directory)
+
         if y_value is not None:
             y_upper_bound = len(self.parameters.dy.flatten())
             y_value = validate.number(y_value, "y_value", check_integer=True,
@@ -213,9 +217,6 @@ class ShallotGrid:
                     os.mkdir(gradient_directory)
                 gradient.save_gradient(gradient_directory)
 
-        if self.diagnostics is not None:
-            self.diagnostics.save(directory)
-
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
@@ -242,9 +243,9 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
-        try:
+        if os.path.exists(f"{directory}/fy_dict.npy"):
             self.diagnostics = GridDiagnostics.load(directory)
-        except LoadError:
+        else:
             self.logger.debug("no diagnostics found")
         
         gradients: list[GridGradient] = []
-- 
2.43.0


From 535fa8ffc59da672ce511cc2410a0df91649cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 15/21] fix: grid parameters that can not be extended are left
 unchanged

---
 GridParameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..8abfc85 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -226,8 +226,9 @@ class GridParameters:
         max_y = self.dy[-1, 0, 0]
         max_x = self.dx[0, -1, 0]
         
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
+        dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
         self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        self.dx = dx
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From 0973d43211dc64d984477679d3627069235ef684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 16/21] fix: a refused measured gradient leaves the grid
 gradient unchanged

---
 GridProperty.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 71dc9a4..c4462a1 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -501,6 +501,25 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
+        old_state = dict(vars(self))
+
+        try:
+            self._set_measured_values(measured_gradient, orbital_scale,
+                transmission_change, measured_error)
+        except Exception:
+            vars(self).update(old_state)
+            raise
+
+
+    def _set_measured_values(self, 
+            measured_gradient: float,
+            orbital_scale: float,
+            transmission_change: float,
+            measured_error: float
+        ) -> None:
+        """
+        This method sets the measured values and the mask, see determine_mask.
+        """
         self.measured_gradient = validate.number(measured_gradient, 
             "measured_gradient", lower_bound=0)
         
-- 
2.43.0


From 0d6af2672e7be096d7bc0849587c1357b912d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 17/21] fix: refused gradients and scaling factors leave the
 grid unchanged

---
 Shallot.py | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index fdc4239..8b655ec 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1537,11 +1537,17 @@ class ShallotGrid:
 
         # convert gradients
         positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        old_gradients = None if self.gradients is None else self.gradients[:]
+
+        try:
+            self._determine_disk_gradients(positions)
+
+            self._set_measured_gradients_and_masks(light_curve_gradients, 
+                light_curve_gradient_errors, transmission_changes)
+        except Exception:
+            self.gradients = old_gradients
+            raise
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
-        
         self._reset_gradient_fit()
 
  
@@ -1650,15 +1656,40 @@ class ShallotGrid:
         The above two points are to prevent over compensation of the gradients
         that will remove potential viable solutions for the light curve fit.
         """
+        old_scales = (self._transverse_velocity, self._limb_darkening)
+        gradients = [] if self.gradients is None else self.gradients
+        old_states = [dict(vars(gradient)) for gradient in gradients]
+
+        try:
+            self._update_gradient_scaling(gradients, transverse_velocity,
+                limb_darkening, transmission_changes)
+        except Exception:
+            self._transverse_velocity, self._limb_darkening = old_scales
+            for gradient, old_state in zip(gradients, old_states):
+                vars(gradient).update(old_state)
+            raise
+
+
+    def _update_gradient_scaling(self, 
+            gradients: list[GridGradient],
+            transverse_velocity: float, 
+            limb_darkening: float, 
+            transmission_changes: np.ndarray
+        ) -> None:
+        """
+        This method applies the scaling factors, see update_gradient_scaling.
+        """
         # update orbital scale
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            self._transverse_velocity = validate.number(transverse_velocity,
+                "transverse_velocity", lower_bound=0.)
             update_orbital_scale = True
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            self._limb_darkening = validate.number(limb_darkening, 
+                "limb_darkening", lower_bound=0., upper_bound=1.)
             update_orbital_scale = True
 
         # update transmission change scale
@@ -1668,7 +1699,7 @@ class ShallotGrid:
                 "transmission_changes", dtype="float64", num_dimensions=1, 
                 lower_bound=-1, upper_bound=1)
 
-            arrays_list = [transmission_changes, np.array(self.gradients)]
+            arrays_list = [transmission_changes, np.array(gradients)]
             names_list = ["transmission_changes", "gradients"]
             validate.same_shape_arrays(arrays_list, names_list)
             
@@ -1678,7 +1709,7 @@ class ShallotGrid:
             self.logger.info("no changes passed")
             return
         
-        for k, gradient in enumerate(self.gradients):
+        for k, gradient in enumerate(gradients):
             # select orbital scale
             if update_orbital_scale:
                 orbital_scale = self._determine_orbital_scale()
-- 
2.43.0


From 8918d69f38f3937212af2000a64349cce43ff8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 18/21] fix: the disk gradient at a vertical tangent is one

---
 Shallot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 8b655ec..c48a473 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1370,6 +1370,9 @@ class ShallotGrid:
             mask = (denominator != 0)
             tangent[mask] = (numerator[mask] / denominator[mask])
 
+            # vertical tangent
+            tangent[(denominator == 0) * (numerator != 0)] = np.inf
+
             # set tangent
             disk_gradient = np.abs(np.sin(np.arctan2(tangent, 1)))
             
-- 
2.43.0


From b4a58fbc35924e24d0f42acb4237851da6b0a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 19/21] fix: the cube viewer marks the coordinates of the slice
 it shows only

---
 GridProperty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index c4462a1..134d7db 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -679,6 +679,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.points = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -873,7 +874,10 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # the points of the slice viewed before
+        for point in self.points:
+            point.remove()
+        self.points = []
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -881,8 +885,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.points += self.ax.plot(x, y, "ro")
\ No newline at end of file
-- 
2.43.0


From 34919e4d0b6606ccdd85c480b721dd595a6cea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 20/21] fix: axes and diagnostics handed out are copies of the
 stored ones

---
 GridDiagnostics.py | 4 ++--
 GridParameters.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index c09d393..27f42db 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -123,8 +123,8 @@ class GridDiagnostics:
             in disk_radius_dict property).
         """
         key = self._generate_key(y, x)
-        fy = self._fy_dict[key]
-        disk_radius = self._disk_radius_dict[key]
+        fy = np.copy(self._fy_dict[key])
+        disk_radius = np.copy(self._disk_radius_dict[key])
 
         return fy, disk_radius
 
diff --git a/GridParameters.py b/GridParameters.py
index 8abfc85..1f5f4d7 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -246,7 +246,7 @@ class GridParameters:
         rf_array : np.ndarray
             The rf radius stretch factors of the ellipse [-]
         """
-        return self.dy.flatten(), self.dx.flatten(), self.rf_array
+        return self.dy.flatten(), self.dx.flatten(), np.copy(self.rf_array)
 
  
     def save(self, directory: str) -> None:
-- 
2.43.0


From ad3806a1b15e37714e436f89b62af9510ab0aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 21/21] fix: stretch samples of grids smaller than one were out
 of order

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index c48a473..76cb96c 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -419,7 +419,8 @@ class ShallotGrid:
         fxy_array : np.ndarray (float 1-D)
             Either a new fx or fy array to be used for building the grid.
         """
-        # determine bounds of the array array
+        # determine bounds of the array array, stretches are at least one
+        max_value = max(max_value, 1)
         min_value = (shift - 1) * max_value
         max_value = shift * max_value
         
-- 
2.43.0

