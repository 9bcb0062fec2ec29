From 3b981c0fd37291991ca10b49a4acb3fa99940152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 01/39] fix: equivalent time search stalls in the flat region
 of saturating mechanisms

---
 gerabaldi/math/minimize.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/math/minimize.py b/gerabaldi/math/minimize.py
index 9f8d449..44596da 100644
--- a/gerabaldi/math/minimize.py
+++ b/gerabaldi/math/minimize.py
@@ -42,11 +42,24 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
         if log_gold
         else np.full_like(shape_to_match, bounds[1], dtype=float)
     )
-    # Initialize the parabolic interpolation points
-    v = w = x = a + (GF2 * (b - a))
     as_kwargs = {}
     for i, arg in enumerate(f_args_order):
         as_kwargs[arg] = f_args[i]
+    if log_gold:
+        # If the function is flat over part of the search range (e.g., for mechanisms that saturate) then its values
+        # give no indication as to the direction of the minimum. To avoid searching within a flat region, first narrow
+        # the bounds to the neighbours of the best point out of a coarse set of points spaced half a decade apart
+        num_pts = 1 + int(np.ceil(2 * np.log10(bounds[1] / bounds[0])))
+        grid = np.linspace(np.log10(bounds[0]), np.log10(bounds[1]), num_pts)
+        grid_vals = np.array([np.broadcast_to(func(np.full_like(a, 10**pt), **as_kwargs), a.shape) for pt in grid])
+        grid_vals = np.where(np.isnan(grid_vals), np.inf, grid_vals)
+        best = np.argmin(grid_vals, axis=0)
+        # If the neighbour above is just as good then the minimum found is the start of a flat region, stop there
+        above = np.minimum(best + 1, len(grid) - 1)
+        above = np.where(np.take_along_axis(grid_vals, above[None], 0)[0] == np.min(grid_vals, axis=0), best, above)
+        a, b = grid[np.maximum(best - 1, 0)], grid[above]
+    # Initialize the parabolic interpolation points
+    v = w = x = a + (GF2 * (b - a))
     fv = fw = fx = func(10**x, **as_kwargs) if log_gold else func(x, **as_kwargs)
     # 'e' represents the step size between the old and new minimum estimate from two iterations ago. This bookkeeping
     # is used to force golden section searches if parabolic interpolation is not proceeding faster than a bisection
@@ -130,5 +143,8 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
 
     if completed_iters == maxiter:
         logger.warn('Equivalent time numerical method hit max iterations, obtained results may have reduced precision.')
+    if log_gold:
+        # When nothing better than the upper bound exists, the bound itself is the result regardless of any flat regions
+        x = np.where(grid_vals[-1] <= fx, grid[-1], x)
     # Return the value of x from the final iteration which is the minimum point found for f
     return 10**x if log_gold else x
-- 
2.43.0


From 9e76371312ef9f89edc74fe8acb6f2c9344715e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 02/39] fix: degradation and failures stop after a few hours of
 stress for mechanisms using small time units

---
 gerabaldi/models/devices.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..7cacfd6 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,13 +7,14 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _convert_time, _on_demand_import, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -403,6 +404,11 @@ class MechMdl(LatentMdl):
         """
         return np.full((num_lots, num_chps, num_devs), self.unitary)
 
+    def _max_equiv_time(self) -> float:
+        # The longest equivalent stress time considered to be valid, expressed using the time units of the mechanism. Must
+        # never be shorter than 10 billion hours so that realistic stress phases are valid regardless of the units used
+        return max(1e10, _convert_time(timedelta(hours=1e10), self.time_unit))
+
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
@@ -441,7 +447,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -549,7 +555,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 0af65253e200b171eff5cb003d5c57474e0dd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:35 +0000
Subject: [PATCH 03/39] fix: circuit parameter measurements drop lots and fail
 with extra devices

---
 gerabaldi/models/devices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 7cacfd6..b1179f5 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1186,8 +1186,10 @@ class CircPrmMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg]
+        # There may be more samples of the degraded parameters available than there are circuit parameters to calculate
+        arg_vals = {arg: val[:, :, :num_samples] if np.ndim(val) == 3 else val for arg, val in arg_vals.items()}
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 8f609a2d3ae5e431b9cbeca8afb7a24dd204fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:45 +0000
Subject: [PATCH 04/39] fix: generating initial state fails for parameters that
 are not measured

---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index b1179f5..b886258 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1313,16 +1313,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From 94c1fe7f45712289012cd5329e26ccab433c5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:31 +0000
Subject: [PATCH 05/39] fix: default mechanism and mechanisms that do not
 depend on time cannot be simulated

---
 gerabaldi/models/devices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index b886258..7b2754f 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -449,8 +449,8 @@ class MechMdl(LatentMdl):
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
         no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
-        # Add the stress time to the argument dict
-        arg_vals = {'time': times}
+        # Add the stress time to the argument dict, unless the mechanism has no time dependence
+        arg_vals = {'time': times} if 'time' in self.compute_args else {}
         # Add all stress conditions, latent variables, and potentially initial values to the argument list
         for arg in self.compute_args:
             if arg in latents:
@@ -541,7 +541,7 @@ class DegMechMdl(MechMdl):
 
         # Computes the absolute difference between the target value and the calculated value using a given time
         def residue(time, curr_deg_val, conds, ltnts):
-            arg_vals = {'time': time}
+            arg_vals = {'time': time} if 'time' in self.compute_args else {}
             for arg in self.compute_args:
                 if arg in ltnts:
                     arg_vals[arg] = ltnts[arg]
-- 
2.43.0


From 5164a32fc77d4961ba0dade0b50098a422073834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 06/39] fix: instruments and variation models shared between
 parameters only apply to the last parameter

---
 gerabaldi/models/phys_envs.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..facac9b 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -326,24 +326,26 @@ class PhysTestEnv:
         self.name = env_name
         # Non-mutable default argument setup
         if env_vrtns is None:
-            env_vrtns = []
+            env_vrtns = {}
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+        else:
+            env_vrtns = {vrtn.name: vrtn for vrtn in env_vrtns}
         if meas_instms is None:
-            meas_instms = []
+            meas_instms = {}
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+        else:
+            meas_instms = {instm.name: instm for instm in meas_instms}
 
-        # Create attributes for each parameter
+        # Create attributes for each parameter, note that multiple parameters may share the same model or instrument
         for prm in env_vrtns:
-            setattr(self, prm.name + '_var', prm)
+            setattr(self, prm + '_var', env_vrtns[prm])
         for prm in meas_instms:
-            setattr(self, prm.name + '_instm', prm)
+            setattr(self, prm + '_instm', meas_instms[prm])
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
-- 
2.43.0


From e82a264f2b66bb82cbb9109f7c9b675de384e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:40 +0000
Subject: [PATCH 07/39] fix: converting the time units of a report twice or
 exporting after conversion corrupts the times

---
 gerabaldi/models/reports.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..b44d9ff 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -201,7 +201,7 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = self._get_meas_timedeltas().apply(_convert_time, units=units, axis=1)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -218,6 +218,12 @@ class SimReport:
             logger.info(f'Successfully exported test report {self.test_name} to file.')
         return report_json
 
+    def _get_meas_timedeltas(self) -> pd.Series:
+        # Measurement times are raw values if the report was previously converted to use a specific time unit
+        return self.measurements['time'].apply(
+            lambda time: time if isinstance(time, timedelta) else _convert_time(time, self.time_unit)
+        )
+
     def convert_report_time(self, time_unit: str = None) -> None:
         """
         Convert the timedelta in the dataframe to raw values according to the specified time unit.
@@ -226,5 +232,6 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        times = self._get_meas_timedeltas().apply(lambda time: _convert_time(time, units))
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
+        self.measurements['time'] = times
-- 
2.43.0


From 2a96574332293066bed33ed3215711acb525deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:48 +0000
Subject: [PATCH 08/39] fix: small values and times lose precision when a
 report is exported and loaded

---
 gerabaldi/models/reports.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index b44d9ff..5e48d08 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -73,8 +73,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = self._frame_from_json(report_json['Measurements'])
+            self.test_summary = self._frame_from_json(report_json['Test Summary'])
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -88,6 +88,21 @@ class SimReport:
             self.measurements, self.test_summary = None, None
             self.num_chps, self.num_lots, self.dev_counts = None, None, None
 
+    # Pandas' own JSON conversion truncates decimal values and guesses at column types, so isn't used for reports
+    @staticmethod
+    def _frame_to_json(frame: pd.DataFrame) -> str:
+        cols = {}
+        for col in frame:
+            # Missing and infinite values have no JSON representation
+            cols[col] = {i: None if pd.isna(val) or val in (np.inf, -np.inf) else val for i, val in frame[col].items()}
+        return json.dumps(cols, default=lambda val: val.item())
+
+    @staticmethod
+    def _frame_from_json(frame_json: str) -> pd.DataFrame:
+        frame = pd.DataFrame(json.loads(frame_json))
+        frame.index = frame.index.astype(int)
+        return frame
+
     @staticmethod
     def format_measurements(
         measured_vals: list | pd.Series | np.ndarray,
@@ -202,12 +217,12 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = self._get_meas_timedeltas().apply(_convert_time, units=units, axis=1)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = self._frame_to_json(strs_cpy)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From 9e4e9865ffaf12544fd5f672ce3dcdb707284273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 09/39] fix: reports loaded from a file lack the device, chip,
 and lot quantities

---
 gerabaldi/models/reports.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 5e48d08..2d17c79 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -73,6 +73,9 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
+            # Older report files do not include the test quantities
+            self.num_chps, self.num_lots = report_json.get('Num Chips'), report_json.get('Num Lots')
+            self.dev_counts = report_json.get('Device Counts')
             self.measurements = self._frame_from_json(report_json['Measurements'])
             self.test_summary = self._frame_from_json(report_json['Test Summary'])
             # Convert the times back to time deltas
@@ -198,7 +201,13 @@ class SimReport:
         None or dict
             No return value if saving to file, otherwise the JSON dictionary format for the report
         """
-        report_json = {'Test Name': self.test_name, 'Description': self.test_description}
+        report_json = {
+            'Test Name': self.test_name,
+            'Description': self.test_description,
+            'Num Chips': self.num_chps,
+            'Num Lots': self.num_lots,
+            'Device Counts': self.dev_counts,
+        }
         if time_unit is None:
             if self.time_unit is None:
                 logger.warn('Time units for exported JSON report not explicitly provided, defaulting to hours.')
@@ -229,7 +238,7 @@ class SimReport:
             data_dir = file.rpartition('/')[0]
             Path(data_dir).mkdir(exist_ok=True)
             with open(file, 'w') as f:
-                json.dump(report_json, f)
+                json.dump(report_json, f, default=int)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
         return report_json
 
-- 
2.43.0


From 703d721fc53d0d11caa64792c7ff1c107a0d602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:03 +0000
Subject: [PATCH 10/39] fix: report export fails if multiple levels of
 directories do not exist yet

---
 gerabaldi/models/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 2d17c79..aa79236 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -236,7 +236,7 @@ class SimReport:
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f, default=int)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From 408e07463796b8e4aa52303b8aa2eda7d277a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:30 +0000
Subject: [PATCH 11/39] fix: a test seed of 0 is ignored

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From a33b27fd872194b196e7575aafab674db588d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:39 +0000
Subject: [PATCH 12/39] fix: configuring a stream handler does not remove the
 default one

---
 gerabaldi/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..33bd2ab 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,11 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # The default stream handler is a subclass of StreamHandler, as are all file handlers
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From 5685d8bcd2645aed8baf0d7bd14c6a2dc49c5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:56 +0000
Subject: [PATCH 13/39] fix: measuring an undefined parameter raises a KeyError
 instead of a MissingParamError

---
 gerabaldi/models/phys_envs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index facac9b..ccaf32f 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -15,7 +15,7 @@ from pandas import Series
 from gerabaldi.models.devices import DeviceMdl
 from gerabaldi.models.reports import SimReport
 from gerabaldi.models.random_vars import Deterministic, RandomVar
-from gerabaldi.exceptions import InvalidTypeError, UserConfigError
+from gerabaldi.exceptions import InvalidTypeError, MissingParamError, UserConfigError
 from gerabaldi.helpers import _on_demand_import
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
@@ -453,6 +453,8 @@ class PhysTestEnv:
                 # in terms of stochastic variations, but shares the same test batch variation.
                 # This assignment is left for readability purposes to make the following line less confusing
                 cond = prm
+                if cond not in batch:
+                    raise MissingParamError(f"Requested param '{prm}' is neither a device parameter nor a condition.")
                 sensor_vals = self.vrtn_mdl(cond).gen_chp_vrtns(batch[cond], dev_counts[prm])
                 # We treat each sensor as a separate chip with only 1 device for measurement each
                 cond_vals[prm] = {cond: self.vrtn_mdl(cond).gen_dev_vrtns(sensor_vals, 1)}
-- 
2.43.0


From 8bd209fb96c23055f2e2c78753a08c2593cc8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:24 +0000
Subject: [PATCH 14/39] fix: exporting a latent variable with a deterministic
 value is not equivalent and alters the variable

---
 gerabaldi/models/devices.py     | 25 +++++++++++++------------
 gerabaldi/models/random_vars.py | 14 ++++++++++++++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 7b2754f..94a04cd 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -6,6 +6,7 @@
 from __future__ import annotations
 
 import inspect
+from copy import copy
 import numpy as np
 from datetime import timedelta
 from typing import Callable
@@ -220,16 +221,19 @@ class LatentVar:
                 raise NotImplementedError(f'Requested target CBI framework {target_framework} is not yet supported.')
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
-            old_centre = None
+            dev_vrtn_mdl = self.dev_vrtn_mdl
             if self.deter_val:
-                # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
-                # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
-                old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                # If the dev_vrtn_mdl distribution has a "centre" we can shift or scale the distribution using the
+                # deterministic value and proceed, however if the distribution is bimodal, uniform, etc. an error must be
+                # raised. A copy is used so that the original distribution remains unchanged.
+                dev_vrtn_mdl = copy(self.dev_vrtn_mdl)
+                dev_vrtn_mdl.set_centre(self.deter_val, self._op)
+                if self.vrtn_type == 'scaling':
+                    dev_vrtn_mdl.scale_spread(abs(self.deter_val))
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
@@ -237,18 +241,15 @@ class LatentVar:
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                cbi_dist = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index a809aec..b02ac9f 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -116,6 +116,9 @@ class RandomVar:
     def set_centre(self, value, operation=None):
         raise NotImplementedError(f'Distribution {self._dist_type} does not have a defined centre value.')
 
+    def scale_spread(self, factor):
+        raise NotImplementedError(f'Distribution {self._dist_type} does not have a defined spread about its centre.')
+
 
 class Deterministic(RandomVar):
     """
@@ -225,6 +228,17 @@ class Normal(RandomVar):
         else:
             self.mu = value
 
+    def scale_spread(self, factor):
+        """
+        Scale the spread of the distribution about its centre, i.e. sigma for a normal distribution
+
+        Parameters
+        ----------
+        factor: float or int
+            The positive factor to multiply the spread by
+        """
+        self.sigma = self.sigma * factor
+
 
 class Gamma(RandomVar):
     """
-- 
2.43.0


From 7f8ba1c4adc6f9b38e2026fafbd789bced8e7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:32 +0000
Subject: [PATCH 15/39] fix: equations that only support single values or
 return constants fail for some sub-models and sample quantities

---
 gerabaldi/models/devices.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 94a04cd..e58f749 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -794,7 +794,12 @@ class InitValMdl(LatentMdl):
         # Can either generate the dev and lot variations here, or they could be provided as method arguments
         latents = self.gen_latent_vals(num_devs, num_chps, num_lots)
         # Compute the initial values using the model's specified equation
-        return self.compute(**latents)
+        dims = (num_lots, num_chps, num_devs)
+        try:
+            init_vals = self.compute(**latents)
+        except ValueError:
+            init_vals = _loop_compute(self.compute, latents, dims)
+        return np.array(np.broadcast_to(init_vals, dims))
 
 
 class DegPrmMdl(LatentMdl):
@@ -1048,7 +1053,8 @@ class DegPrmMdl(LatentMdl):
             prm_vals = self.compute(**arg_vals)
         except ValueError:
             prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
-        return prm_vals, mech_vals
+        # Equations that return a constant result in a single value, every sample must have its own value
+        return np.array(np.broadcast_to(prm_vals, strs_dims)), mech_vals
 
     def calc_cond_shifted_vals(
         self, meas_dims: tuple, strs_conds: dict, deg_vals: np.ndarray, latents: dict
@@ -1094,9 +1100,10 @@ class DegPrmMdl(LatentMdl):
 
         # Now compute the parameter values
         try:
-            return self.compute(**arg_vals)
+            prm_vals = self.compute(**arg_vals)
         except ValueError:
-            return _loop_compute(self.compute, arg_vals, meas_dims)
+            prm_vals = _loop_compute(self.compute, arg_vals, meas_dims)
+        return np.array(np.broadcast_to(prm_vals, meas_dims))
 
     def get_dependencies(self, conditions, target):
         """
@@ -1190,7 +1197,12 @@ class CircPrmMdl(LatentMdl):
         # There may be more samples of the degraded parameters available than there are circuit parameters to calculate
         arg_vals = {arg: val[:, :, :num_samples] if np.ndim(val) == 3 else val for arg, val in arg_vals.items()}
 
-        return self.compute(**arg_vals)
+        dims = np.broadcast_shapes(*(np.shape(val) for val in arg_vals.values()))
+        try:
+            circ_vals = self.compute(**arg_vals)
+        except ValueError:
+            circ_vals = _loop_compute(self.compute, arg_vals, dims)
+        return np.array(np.broadcast_to(circ_vals, dims))
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 2c6d262d84b69cd190e7db341d5a4aedbd914528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:57 +0000
Subject: [PATCH 16/39] fix: array_computable option of degraded parameters is
 ignored

---
 gerabaldi/models/devices.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index e58f749..6965e1a 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -964,6 +964,17 @@ class DegPrmMdl(LatentMdl):
                 new[key] = self._reduce_dev_dim_size(vals[key], reduced_size)
         return new
 
+    def _compute_vals(self, arg_vals: dict, dims: tuple) -> np.ndarray:
+        if self.array_compute:
+            try:
+                prm_vals = self.compute(**arg_vals)
+            except ValueError:
+                prm_vals = _loop_compute(self.compute, arg_vals, dims)
+        else:
+            prm_vals = _loop_compute(self.compute, arg_vals, dims)
+        # Equations that return a constant result in a single value, every sample must have its own value
+        return np.array(np.broadcast_to(prm_vals, dims))
+
     def calc_equiv_strs_times(
         self, strs_dims: tuple, mech_deg_vals: dict, strs_conds: dict, init_vals: dict, latents: dict
     ) -> dict[str, np.ndarray]:
@@ -1049,12 +1060,7 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values using all the calculated mechanism and conditional shift values
-        try:
-            prm_vals = self.compute(**arg_vals)
-        except ValueError:
-            prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
-        # Equations that return a constant result in a single value, every sample must have its own value
-        return np.array(np.broadcast_to(prm_vals, strs_dims)), mech_vals
+        return self._compute_vals(arg_vals, strs_dims), mech_vals
 
     def calc_cond_shifted_vals(
         self, meas_dims: tuple, strs_conds: dict, deg_vals: np.ndarray, latents: dict
@@ -1099,11 +1105,7 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values
-        try:
-            prm_vals = self.compute(**arg_vals)
-        except ValueError:
-            prm_vals = _loop_compute(self.compute, arg_vals, meas_dims)
-        return np.array(np.broadcast_to(prm_vals, meas_dims))
+        return self._compute_vals(arg_vals, meas_dims)
 
     def get_dependencies(self, conditions, target):
         """
-- 
2.43.0


From 2565754eaa2913fb77d307dce640663f2663188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:05 +0000
Subject: [PATCH 17/39] fix: initial state with a numeric elapsed time cannot
 be stressed

---
 gerabaldi/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..39350d7 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -82,7 +82,9 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+        # Elapsed time is tracked as a timedelta, assume hours as is done for all other times without a specified unit
+        is_delta = isinstance(elapsed_time, timedelta)
+        init_state.elapsed = elapsed_time if is_delta else _convert_time(elapsed_time, 'hours')
     return init_state
 
 
-- 
2.43.0


From ee3eb3dc64d6cc1bc16b40d93057aae17500bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 18/39] fix: generating initial state alters the passed device
 counts

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 39350d7..440200b 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,8 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        # Copy the device counts as additional parameters may be added below
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From 471d4027c421a3743152b8d6bd93479a19e0d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 19/39] fix: simulating from an initial state fails if it has
 devices that are not measured

---
 gerabaldi/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 440200b..1dc8ee9 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -226,6 +226,9 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    # All devices in the state undergo stress regardless of how many of them are measured by the test
+    for prm in sim_state.curr_prm_vals:
+        test_report.dev_counts[prm] = sim_state.curr_prm_vals[prm].shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 31358802fc0669d5c7ed51df68d945dc2963191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:59 +0000
Subject: [PATCH 20/39] fix: exporting a latent variable with an integer
 deterministic value to pyro fails

---
 gerabaldi/models/random_vars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index b02ac9f..2a2825d 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -200,7 +200,8 @@ class Normal(RandomVar):
         return {'loc': self.mu, 'scale': self.sigma}
 
     def _params_for_pyro(self):
-        return {'loc': self.mu, 'scale': self.sigma}
+        # Integer types from numpy are not accepted by pyro
+        return {'loc': float(self.mu), 'scale': float(self.sigma)}
 
     def get_centre(self) -> float | int:
         """
-- 
2.43.0


From 25227504138bd51aff87866c32606e5dd8090403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:36 +0000
Subject: [PATCH 21/39] fix: exporting latent variables with changed or shared
 distributions to CBI frameworks fails

---
 gerabaldi/models/devices.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 6965e1a..f44caf1 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -231,22 +231,30 @@ class LatentVar:
                 if self.vrtn_type == 'scaling':
                     dev_vrtn_mdl.scale_spread(abs(self.deter_val))
 
+            # The distributions may have been changed since naming or be shared with other layers and variables, so name
+            # copies of them here to ensure that the exported variable names always match this variable and are unique
+            chp_vrtn_mdl, lot_vrtn_mdl = copy(self.chp_vrtn_mdl), copy(self.lot_vrtn_mdl)
+            if self.name is not None:
+                dev_vrtn_mdl = copy(dev_vrtn_mdl)
+                dev_vrtn_mdl.name = f'{self.name}_dev' if self._chp_vrtns or self._lot_vrtns else self.name
+                chp_vrtn_mdl.name, lot_vrtn_mdl.name = f'{self.name}_chp', f'{self.name}_lot'
+
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
                 dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                chp = chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                lot = lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
                     cbi_dist = pymc.Deterministic(self.name, op(op(dev, chp), lot))
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
                 dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                chp = chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
                 dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                lot = lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
                 cbi_dist = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-- 
2.43.0


From 9347bf5c72ed6e4db8a5089ce163f9379756164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:00 +0000
Subject: [PATCH 22/39] fix: observed values are ignored when exporting a
 random variable to pyro

---
 gerabaldi/models/random_vars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 2a2825d..0101688 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -14,6 +14,7 @@ from gerabaldi.helpers import _on_demand_import
 pymc = _on_demand_import('pymc')
 pyro = _on_demand_import('pyro', 'pyro-ppl')
 dist = _on_demand_import('pyro.distributions', 'pyro-ppl')
+tc = _on_demand_import('torch')
 
 __all__ = ['RandomVar', 'Deterministic', 'Normal', 'Gamma', 'Uniform']
 
@@ -90,7 +91,9 @@ class RandomVar:
         elif target_framework == 'pyro':
             try:
                 return pyro.sample(
-                    self.name, getattr(dist, self._dist_type.capitalize())(**self._get_dist_params('pyro'))
+                    self.name,
+                    getattr(dist, self._dist_type.capitalize())(**self._get_dist_params('pyro')),
+                    obs=None if observed is None else tc.as_tensor(observed),
                 )
             except AttributeError as e:
                 raise NotImplementedError(
-- 
2.43.0


From 0a0f725349c57a6abb0b9ebde28b7745fb90b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:38 +0000
Subject: [PATCH 23/39] fix: exporting a model to pyro fails as the event
 dimension is declared on the sampled values

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index f44caf1..e9cc4cb 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -363,7 +363,7 @@ class LatentMdl:
         if target_framework == 'pymc':
             return pymc.Normal(name=self.name, mu=computed, sigma=1, observed=observed[self.name])
         else:
-            return pyro.sample(self.name, dist.Normal(computed, 0.1), obs=observed[self.name]).to_event(1)
+            return pyro.sample(self.name, dist.Normal(computed, 0.1).to_event(1), obs=observed[self.name])
 
 
 class MechMdl(LatentMdl):
-- 
2.43.0


From 80f6f06838e6848ba129e1656bdd97fb9c9db1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:22 +0000
Subject: [PATCH 24/39] fix: importing all names from the test specification
 modules fails as their listing is extended in place

---
 gerabaldi/cookbook/__init__.py | 2 +-
 gerabaldi/models/__init__.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/cookbook/__init__.py b/gerabaldi/cookbook/__init__.py
index 9ac9bab..b92a5a0 100644
--- a/gerabaldi/cookbook/__init__.py
+++ b/gerabaldi/cookbook/__init__.py
@@ -11,6 +11,6 @@ from .test_specs import *
 from .test_envs import *
 from .mech_mdls import *
 
-__all__ = test_specs.__all__
+__all__ = test_specs.__all__.copy()
 __all__ += test_envs.__all__
 __all__ += mech_mdls.__all__
diff --git a/gerabaldi/models/__init__.py b/gerabaldi/models/__init__.py
index 4862fc1..198a84f 100644
--- a/gerabaldi/models/__init__.py
+++ b/gerabaldi/models/__init__.py
@@ -11,7 +11,7 @@ from .random_vars import *
 from .reports import *
 from .states import *
 
-__all__ = test_specs.__all__
+__all__ = test_specs.__all__.copy()
 __all__ += devices.__all__
 __all__ += phys_envs.__all__
 __all__ += random_vars.__all__
-- 
2.43.0


From f318bca0b80cbdd590664ee48477d71829254a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:22 +0000
Subject: [PATCH 25/39] fix: importing all names from the package fails as the
 listed models are not part of it

---
 gerabaldi/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerabaldi/__init__.py b/gerabaldi/__init__.py
index a8b1447..75e2c62 100644
--- a/gerabaldi/__init__.py
+++ b/gerabaldi/__init__.py
@@ -46,6 +46,8 @@ __version__ = '0.2.0'
 
 from . import models
 from . import cookbook
+from .models import *
+from .cookbook import *
 from .sim import simulate, gen_init_state
 
 __all__ = ['simulate', 'gen_init_state', 'models', 'cookbook']
-- 
2.43.0


From 555dee9b58fa91dc111f7dc3716a901f802602b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:23 +0000
Subject: [PATCH 26/39] fix: order of environmental condition draws differs
 between processes

---
 gerabaldi/models/devices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index e9cc4cb..0c4e8e9 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1139,8 +1139,9 @@ class DegPrmMdl(LatentMdl):
                 depends_conds.extend([arg for arg in self.mech_mdl(mech).compute_args if arg in conditions])
         else:
             depends_conds.extend([arg for arg in self.cond_mdl.compute_args if arg in conditions])
-        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates
-        return [*set(depends_conds)]
+        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates. The order
+        # has to be kept, as otherwise the order in which random values are drawn would differ between processes
+        return list(dict.fromkeys(depends_conds))
 
 
 class CircPrmMdl(LatentMdl):
-- 
2.43.0


From ba5672b565628bb2662f9eeb6b8bb461f79ac14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 27/39] fix: equivalent time search ends at worse points than
 those it tried

---
 gerabaldi/math/minimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/math/minimize.py b/gerabaldi/math/minimize.py
index 44596da..4112cba 100644
--- a/gerabaldi/math/minimize.py
+++ b/gerabaldi/math/minimize.py
@@ -54,10 +54,13 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
         grid_vals = np.array([np.broadcast_to(func(np.full_like(a, 10**pt), **as_kwargs), a.shape) for pt in grid])
         grid_vals = np.where(np.isnan(grid_vals), np.inf, grid_vals)
         best = np.argmin(grid_vals, axis=0)
-        # If the neighbour above is just as good then the minimum found is the start of a flat region, stop there
+        grid_best = np.min(grid_vals, axis=0)
+        # If the neighbour above and the middle between the two are just as good then the minimum found is the start of a
+        # flat region, stop there
         above = np.minimum(best + 1, len(grid) - 1)
-        above = np.where(np.take_along_axis(grid_vals, above[None], 0)[0] == np.min(grid_vals, axis=0), best, above)
-        a, b = grid[np.maximum(best - 1, 0)], grid[above]
+        mid_vals = func(10 ** ((grid[best] + grid[above]) / 2), **as_kwargs)
+        is_flat = (np.take_along_axis(grid_vals, above[None], 0)[0] == grid_best) & ~(mid_vals < grid_best)
+        a, b = grid[np.maximum(best - 1, 0)], grid[np.where(is_flat, best, above)]
     # Initialize the parabolic interpolation points
     v = w = x = a + (GF2 * (b - a))
     fv = fw = fx = func(10**x, **as_kwargs) if log_gold else func(x, **as_kwargs)
@@ -144,6 +147,8 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
     if completed_iters == maxiter:
         logger.warn('Equivalent time numerical method hit max iterations, obtained results may have reduced precision.')
     if log_gold:
+        # The search may have ended in a flat region, in which case the best point of the coarse set is the better result
+        x, fx = np.where(grid_best < fx, grid[best], x), np.minimum(grid_best, fx)
         # When nothing better than the upper bound exists, the bound itself is the result regardless of any flat regions
         x = np.where(grid_vals[-1] <= fx, grid[-1], x)
     # Return the value of x from the final iteration which is the minimum point found for f
-- 
2.43.0


From 1fe207d3e479b564a1f612cbbf9ed36695610b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 28/39] fix: measuring undefined values with an instrument of
 limited precision fails

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index ccaf32f..221f95d 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From 9fd0faf453ef128ab31d1a881c11ba9e75880187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 29/39] fix: measuring a single numpy value gives a series
 instead of a value

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 221f95d..e04596e 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -93,7 +93,7 @@ class MeasInstrument:
         # Convert the measured values back into the passed data type
         if rtrn_type == np.ndarray:
             meas_vals = np.array(meas_vals)
-        elif rtrn_type is int or rtrn_type is float:
+        elif np.isscalar(true_vals):
             meas_vals = meas_vals[0]
         return meas_vals
 
-- 
2.43.0


From 326b423592374e1ab6f595e4ffa34dcd5177113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:06 +0000
Subject: [PATCH 30/39] fix: equations that use functions for single values
 (e.g. math.exp) fail with a TypeError

---
 gerabaldi/models/devices.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 0c4e8e9..fbdc976 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -469,7 +469,7 @@ class MechMdl(LatentMdl):
         # Calculate the degradation for all samples
         try:
             deg_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             deg_vals = _loop_compute(self.compute, arg_vals, dims)
 
         # Overwrite the calculated degradation for the samples that we knew wouldn't degrade to the previous values
@@ -559,7 +559,7 @@ class DegMechMdl(MechMdl):
             # Calculate the degradation for the sample
             try:
                 return abs(curr_deg_val - self.compute(**arg_vals))
-            except ValueError:
+            except (ValueError, TypeError):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
@@ -741,7 +741,7 @@ class CondShiftMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             return _loop_compute(self.compute, arg_vals, dims)
 
 
@@ -805,7 +805,7 @@ class InitValMdl(LatentMdl):
         dims = (num_lots, num_chps, num_devs)
         try:
             init_vals = self.compute(**latents)
-        except ValueError:
+        except (ValueError, TypeError):
             init_vals = _loop_compute(self.compute, latents, dims)
         return np.array(np.broadcast_to(init_vals, dims))
 
@@ -976,7 +976,7 @@ class DegPrmMdl(LatentMdl):
         if self.array_compute:
             try:
                 prm_vals = self.compute(**arg_vals)
-            except ValueError:
+            except (ValueError, TypeError):
                 prm_vals = _loop_compute(self.compute, arg_vals, dims)
         else:
             prm_vals = _loop_compute(self.compute, arg_vals, dims)
@@ -1211,7 +1211,7 @@ class CircPrmMdl(LatentMdl):
         dims = np.broadcast_shapes(*(np.shape(val) for val in arg_vals.values()))
         try:
             circ_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             circ_vals = _loop_compute(self.compute, arg_vals, dims)
         return np.array(np.broadcast_to(circ_vals, dims))
 
-- 
2.43.0


From 9c3a23fd69e2725c60b3246e9f270167da0b7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:06 +0000
Subject: [PATCH 31/39] fix: single values of numpy integer and other types are
 dropped when computing sample by sample

---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 33bd2ab..aa65212 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -177,7 +177,7 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
             new[key] = _get_single_index(vals[key], i, j, k)
         elif type(val) in [np.ndarray, list]:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
             new[key] = val
     return new
 
-- 
2.43.0


From 7f169adcdac0e245bcdb9ca03500459e27db65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:06 +0000
Subject: [PATCH 32/39] fix: pandas time differences, e.g. from a report,
 cannot be used as durations

---
 gerabaldi/models/test_specs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index ac854d1..7ade7ea 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -72,7 +72,7 @@ class StrsSpec:
         """
         self.conditions = conditions
         # Currently, test lengths use units of hours, but are provided as timedelta objects
-        if type(duration) is not timedelta:
+        if not isinstance(duration, timedelta):
             if time_unit is None:
                 logger.warn('Stress spec time units not explicitly provided, defaulting to hours.')
             duration = _convert_time(duration, time_unit)
@@ -162,7 +162,7 @@ class TestSpec:
                 self.steps.append(steps)
         else:
             # If we are looping the steps until some amount of elapsed time, we first convert the time for comparison
-            if type(loop_for_duration) is timedelta:
+            if isinstance(loop_for_duration, timedelta):
                 duration = loop_for_duration
             else:
                 if time_unit is None:
-- 
2.43.0


From b4c7708cffab5a89ed199dd78a6077b4c84a9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:23 +0000
Subject: [PATCH 33/39] fix: durations given as numpy integers are rejected

---
 gerabaldi/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index aa65212..b60da15 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -123,7 +123,8 @@ def _convert_time(time, units, **kwargs):
     if type(time) in [timedelta, pd.Timedelta]:
         return time.total_seconds() / TIME_SECOND_FACTORS[td_unit]
     else:
-        return timedelta(**{td_unit: time})
+        # Time deltas do not accept numpy's own number types
+        return timedelta(**{td_unit: time.item() if isinstance(time, np.generic) else time})
 
 
 def _on_demand_import(module: str, pypi_name: str = None):
-- 
2.43.0


From 649badc2dbe93bda16a437af03b22070c7283a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:59 +0000
Subject: [PATCH 34/39] fix: infinite values are lost when a report is exported

---
 gerabaldi/models/reports.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index aa79236..2da66b3 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -81,6 +81,7 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
+            self.measurements['measured'] = self.measurements['measured'].astype(float)
             self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
@@ -96,8 +97,8 @@ class SimReport:
     def _frame_to_json(frame: pd.DataFrame) -> str:
         cols = {}
         for col in frame:
-            # Missing and infinite values have no JSON representation
-            cols[col] = {i: None if pd.isna(val) or val in (np.inf, -np.inf) else val for i, val in frame[col].items()}
+            # Missing values have no JSON representation
+            cols[col] = {i: None if pd.isna(val) else val for i, val in frame[col].items()}
         return json.dumps(cols, default=lambda val: val.item())
 
     @staticmethod
-- 
2.43.0


From c618b476e8050f376d211342589dcb8dd0110fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:30 +0000
Subject: [PATCH 35/39] fix: reports of tests without measurements cannot be
 exported or converted

---
 gerabaldi/models/reports.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 2da66b3..4d3c6d6 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -81,8 +81,10 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
-            self.measurements['measured'] = self.measurements['measured'].astype(float)
-            self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
+            # There are no columns at all if the test did not include any measurements
+            if 'time' in self.measurements:
+                self.measurements['measured'] = self.measurements['measured'].astype(float)
+                self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
@@ -226,7 +228,8 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = self._get_meas_timedeltas().apply(_convert_time, units=units, axis=1)
+        if 'time' in meas_cpy:
+            meas_cpy['time'] = self._get_meas_timedeltas().apply(_convert_time, units=units, axis=1)
         report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -257,6 +260,6 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
-        times = self._get_meas_timedeltas().apply(lambda time: _convert_time(time, units))
+        if 'time' in self.measurements:
+            self.measurements['time'] = self._get_meas_timedeltas().apply(lambda time: _convert_time(time, units))
         self.time_unit = units
-        self.measurements['time'] = times
-- 
2.43.0


From 21d67bc61987f86c4d4eaa78bf630fe34aa7297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:12 +0000
Subject: [PATCH 36/39] fix: values are repeated for devices, chips or lots
 that the provided initial state does not have

---
 gerabaldi/sim.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 1dc8ee9..0c741a9 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -226,9 +226,21 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
-    # All devices in the state undergo stress regardless of how many of them are measured by the test
+    # The values of single devices, chips or lots would be repeated for any others that the provided state doesn't include
+    devs_needed = test_def.calc_samples_needed()
+    for prm in list(devs_needed):
+        if prm in dev_mdl.prm_mdl_list and type(dev_mdl.prm_mdl(prm)) is CircPrmMdl:
+            for required_prm in dev_mdl.prm_mdl(prm).get_required_prms(dev_mdl.prm_mdl_list):
+                devs_needed[required_prm] = max(devs_needed.get(required_prm, 0), devs_needed[prm])
     for prm in sim_state.curr_prm_vals:
-        test_report.dev_counts[prm] = sim_state.curr_prm_vals[prm].shape[2]
+        num_lots, num_chps, num_devs = sim_state.curr_prm_vals[prm].shape
+        if (num_lots, num_chps) != (test_report.num_lots, test_report.num_chps) or num_devs < devs_needed.get(prm, 0):
+            raise UserConfigError(
+                f'The initial state has {num_devs} devices for {prm} on {num_chps} chips of {num_lots} lots, which does not '
+                f'match the {devs_needed.get(prm, 0)} on {test_report.num_chps} of {test_report.num_lots} in the test.'
+            )
+        # All devices in the state undergo stress regardless of how many of them are measured by the test
+        test_report.dev_counts[prm] = num_devs
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 838a8cb4d1686fd9199517e48ab34cd90ce403ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:44 +0000
Subject: [PATCH 37/39] fix: whole-number conditions and latent values overflow
 or fail in equations with large or negative powers

---
 gerabaldi/models/devices.py     | 2 +-
 gerabaldi/models/random_vars.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index fbdc976..58ec9b7 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -807,7 +807,7 @@ class InitValMdl(LatentMdl):
             init_vals = self.compute(**latents)
         except (ValueError, TypeError):
             init_vals = _loop_compute(self.compute, latents, dims)
-        return np.array(np.broadcast_to(init_vals, dims))
+        return np.array(np.broadcast_to(init_vals, dims), dtype=float)
 
 
 class DegPrmMdl(LatentMdl):
diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 0101688..9f85b22 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -164,7 +164,8 @@ class Deterministic(RandomVar):
         numpy.ndarray
             A 1D array containing the sampled values
         """
-        return np.full(quantity, self.value)
+        # As for all other distributions values are never integers, whose range and operations are limited
+        return np.full(quantity, self.value, dtype=float)
 
 
 class Normal(RandomVar):
-- 
2.43.0


From fc3a8f7d87a209d6c787ddd142285ea65b161cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 38/39] fix: arrays with several dimensions cannot be measured

---
 gerabaldi/models/phys_envs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index e04596e..ac1e372 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -74,7 +74,8 @@ class MeasInstrument:
         meas_vals = true_vals
         # Convert the input to a pandas Series if a different type
         if rtrn_type != pd.Series:
-            meas_vals = pd.Series(meas_vals)
+            # Arrays can have any number of dimensions, e.g. one each for lots, chips and devices
+            meas_vals = pd.Series(np.ravel(meas_vals))
 
         if self._error:
             # Add offsets randomly sampled from the error statistical distribution
@@ -92,7 +93,7 @@ class MeasInstrument:
 
         # Convert the measured values back into the passed data type
         if rtrn_type == np.ndarray:
-            meas_vals = np.array(meas_vals)
+            meas_vals = np.array(meas_vals).reshape(true_vals.shape)
         elif np.isscalar(true_vals):
             meas_vals = meas_vals[0]
         return meas_vals
-- 
2.43.0


From 7f795bdc7ee772f0d3b53498f964fce6ad869a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:14 +0000
Subject: [PATCH 39/39] Revert "fix: pandas time differences, e.g. from a
 report, cannot be used as durations"

This reverts commit 7f169adcdac0e245bcdb9ca03500459e27db65df.
---
 gerabaldi/models/test_specs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index 7ade7ea..ac854d1 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -72,7 +72,7 @@ class StrsSpec:
         """
         self.conditions = conditions
         # Currently, test lengths use units of hours, but are provided as timedelta objects
-        if not isinstance(duration, timedelta):
+        if type(duration) is not timedelta:
             if time_unit is None:
                 logger.warn('Stress spec time units not explicitly provided, defaulting to hours.')
             duration = _convert_time(duration, time_unit)
@@ -162,7 +162,7 @@ class TestSpec:
                 self.steps.append(steps)
         else:
             # If we are looping the steps until some amount of elapsed time, we first convert the time for comparison
-            if isinstance(loop_for_duration, timedelta):
+            if type(loop_for_duration) is timedelta:
                 duration = loop_for_duration
             else:
                 if time_unit is None:
-- 
2.43.0

