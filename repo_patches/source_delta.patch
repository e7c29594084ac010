From f4c826932d53843a779997c9e7a1cdb51de1e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 01/55] fix: decode variable length strings when reloading HDF5
 files

h5py >= 3 returns variable length strings as bytes. Reloaded names, indices and
columns therefore became "b'...'" and no saved state could be reloaded.
---
 qtune/storage.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..db33c64 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -45,6 +45,17 @@ def _get_dtype(arr):
     return arr.dtype
 
 
+def _decode(arr):
+    """Variable length strings are returned as bytes by h5py >= 3. This function converts them back to str."""
+    arr = np.asarray(arr)
+    if arr.dtype == 'O':
+        decoded = np.empty(arr.shape, dtype=object)
+        for idx, entry in np.ndenumerate(arr):
+            decoded[idx] = entry.decode('utf-8') if isinstance(entry, bytes) else entry
+        return decoded
+    return arr
+
+
 def _import_all():
     import qtune.autotuner
     import qtune.evaluator
@@ -239,20 +250,20 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
     elif isinstance(hdf5_obj, h5py.Dataset):
         if '#type' in hdf5_obj.attrs:
             if hdf5_obj.attrs['#type'] == 'DataFrame':
-                idx = hdf5_obj.attrs['index']
-                col = hdf5_obj.attrs['columns']
-                result = pd.DataFrame(data=np.asarray(hdf5_obj), index=idx, columns=col)
+                idx = _decode(hdf5_obj.attrs['index'])
+                col = _decode(hdf5_obj.attrs['columns'])
+                result = pd.DataFrame(data=_decode(hdf5_obj), index=idx, columns=col)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'Series':
-                idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                idx = _decode(hdf5_obj.attrs['index'])
+                result = pd.Series(data=_decode(hdf5_obj), index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = str(_decode(hdf5_obj))
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From f8d45f062bb1c57553d02858c230447a3b01dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 02/55] fix: communicate manually changed voltages to tuners
 and gradient estimators

The setters intersected the gate names with the voltage values, which is always
empty, so that restart() silently kept the old voltages.
---
 qtune/gradient.py        | 4 +++-
 qtune/parameter_tuner.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..fe401d9 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,9 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self.current_position.index)
+        # the series might be shared with other estimators or solvers
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..7741537 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the series might be referenced elsewhere (i.e. in the list of evaluatable voltages)
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From 1f4de2b1d18690da1fa9578a9fdfa6d0d943a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 03/55] fix: keep measured parameters without a target
 invariant in the Newton step

A parameter with desired value NaN but a known current value was driven
towards zero instead of being replaced by its current value.
---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..95a5e5a 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -229,7 +229,7 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff = (self.target.desired - self._current_values).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 19db2fed9e2a1aaa8dd6422e49ee6ed1b2bddb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 04/55] fix: never save an object as reference to an unrelated
 one

Objects are identified by their id while a file is written. Temporary objects
returned by to_hdf5() (i.e. gradients) were garbage collected in between, so that
their id was reused and later objects were saved as references to them.
---
 qtune/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index db33c64..11e16fd 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -95,6 +95,9 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_parent_group.create_dataset(name, data=serialized[id(obj)].ref)
         return
 
+    # temporary objects have to be kept alive because their id could be reused otherwise
+    serialized.setdefault('#alive', []).append(obj)
+
     if isinstance(obj, dict):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
-- 
2.43.0


From 5b7c5e220fb0e46a49f61414c2f84ef4809cf54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 05/55] fix: do not wait forever for a storage worker which
 died with a non-empty queue

---
 qtune/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 11e16fd..e268029 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -361,13 +361,13 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
-
-        elif self._queue.qsize():
-            warnings.warn("Storage queue contains data but the writer worker is already dead.")
 
+        # the queue itself must not be joined because this would block forever if the worker dies before it is empty
         self._worker.join()
 
+        if self._queue.qsize():
+            warnings.warn("Storage queue contains data but the writer worker is already dead.")
+
     def __del__(self):
         self.join()
 
-- 
2.43.0


From 0d293a5bce9f928f28723fff07f3d7ec1e7a18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 06/55] fix: measure again after a restart or a change of the
 targets

The flag for a finished evaluation was kept, so that the first group calculated
new voltages from an evaluation which belonged to another group, other voltages
or another target.
---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From d5d2ccf85af29dd6845b32aa3d4968d0e680669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 07/55] fix: evaluate after the last slice of a voltage step

If the remaining step fitted into the maximal step size while steps were still
queued, the counter was never reset and the parameters were never evaluated again.
---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 7741537..c21accd 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -274,6 +274,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the target position is reached with this step and has to be evaluated
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 9fb664586565c5e904f80d4210af244628a2e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 08/55] fix: save the recovery information of the
 SensingDotTuner

---
 qtune/parameter_tuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index c21accd..e6d346f 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -406,7 +406,9 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
+                    last_evaluation_failed=self._last_evaluation_failed,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From 39f51a12d8e98f34858c64e8369322919b5bcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 09/55] fix: restore the gate voltages if the measurement of a
 lead transition fails

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..d30378c 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -539,9 +539,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From 1c2a3a17251e4c9af04904723c7193c5f139f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 10/55] fix: evaluate groups whose target contains parameters
 of other groups

Targets contain parameters which have to be left invariant (desired value NaN).
Selecting them from the evaluated ones raises a KeyError since pandas 1.0.
---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e6d346f..51abdb8 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -163,7 +163,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        # parameters without a desired value might be evaluated by another ParameterTuner
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From ebfcc54b1c12cae7e538217bf2cc8a60aaf2dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 11/55] fix: reload groups whose target contains parameters of
 other groups

The last values are only stored for the parameters tuned by the group itself, but
all parameters in the target were required when the group was reloaded.
---
 qtune/parameter_tuner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 51abdb8..4a75283 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -71,7 +71,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            assert set(self._get_relevant_parameters()).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
@@ -82,7 +82,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
                                             axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            assert set(self._get_relevant_parameters()).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
@@ -94,6 +94,11 @@ class ParameterTuner(metaclass=HDF5Serializable):
             raise ValueError('Parameter duplicates: ', {p for p in parameters if parameters.count(p) > 1})
         assert set(self.target.dropna().index).issubset(set(parameters))
 
+    def _get_relevant_parameters(self) -> pd.Index:
+        """Parameters which are tuned by this group, in contrast to those which shall only be left invariant."""
+        return self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                axis='columns').dropna().index
+
     @property
     def logger(self):
         return logging.getLogger(self._logger)
-- 
2.43.0


From 3b6a82e71e2654ca43a31ec061a39781a05c380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 12/55] fix: discard the slices of an interrupted voltage step
 at a restart

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 4a75283..8b0a7b5 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -287,6 +287,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From fa099a823d8c813d932a43dbde959ff9100f316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 13/55] fix: reload finite difference estimators with stored
 measurements

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index fe401d9..0b194df 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -116,8 +116,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._epsilon.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From b6ec3dbcd30f8fd5075389b00dd4f153c9a32697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 14/55] fix: start the finite differences from scratch at a
 restart

A position measured twice led to linearly dependent differences, so that the
gradient could not be calculated and every following evaluation failed.
---
 qtune/gradient.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 0b194df..54def4a 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -216,6 +216,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             self._current_estimate = gradient
             self._covariance = covariance
 
+    def restart(self, new_position):
+        if self._current_estimate is None:
+            # start all over because the new position might have been measured already
+            self._stored_measurements = []
+        super().restart(new_position)
+
     def to_hdf5(self):
         return dict(current_position=self._current_position,
                     epsilon=self._epsilon,
-- 
2.43.0


From 49ae01250569b057d61091fe4acff4bf08ebd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 15/55] fix: do not mix the base point into symmetric finite
 differences

The base point was paired with itself, which leads to linearly dependent
differences.
---
 qtune/gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 54def4a..8775943 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -191,6 +191,10 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if self._symmetric_calculation and position.equals(self._current_position):
+                # the base point is not part of the symmetric differences
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From 1d2385c739e4e1e4417b69555cadeb48c6d86399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 16/55] fix: initialise the Kalman filter of the
 SelfInitializingKalmanEstimator

The missing comma raised a TypeError as soon as the finite differences were
complete. A restart has to reset the value to which the Kalman filter refers.
---
 qtune/gradient.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 8775943..00bcf70 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -405,7 +405,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -458,13 +458,18 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
-                                             **self._kalman_gradient_arguments)
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
+                                             **(self._kalman_gradient_arguments or {}))
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
                                                              current_value=value,
                                                              **self._kalman_arguments)
 
+    def restart(self, new_position):
+        self._finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From a3a724bb6d02eda252059bea5604ba9451c4ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 17/55] fix: use the logger instead of its name in the GUI

Every call of start, step or pause and every message of the worker thread raised
an AttributeError because strings do not have the methods of a logger.
---
 qtune/gui.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..53267ef 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -559,14 +559,14 @@ class GUI(QtWidgets.QMainWindow):
         self._stop_btn = stop_btn
         self._step_btn = step_btn
 
+        self._logger = logger
+
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
         self._stop = False
         self._thread.start()
 
-        self._logger = logger
-
         self._plot_organizer = []
         self._parameter_windows = []
         self._gradient_windows = []
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From 9fd47dd4a966569003e2bb9cbba6bed5ef499daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 18/55] fix: let the worker thread of the GUI stop during
 continuous tuning

The operator precedence made close() wait until the tuning was paused or complete.
---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 53267ef..0b74b9c 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From 8d4a0dec2c3c0e3b4d33a1c5c8bf6b9bde0166cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 19/55] fix: ignore subdirectories when a history is loaded

A reloaded Autotuner stores its states in a subdirectory of the original storage
path, which could therefore not be loaded any more.
---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..b5479f7 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -332,7 +332,8 @@ class History:
         """
         with qtune.storage.ParallelHDF5Reader(reserved={'experiment': self.experiment}, multiprocess=False) as reader:
             directory_content = [os.path.join(path, file)
-                                 for file in sorted(os.listdir(path))]
+                                 for file in sorted(os.listdir(path))
+                                 if os.path.isfile(os.path.join(path, file))]
             for file, loaded_data in zip(directory_content, reader.read_iter(directory_content)):
                 autotuner = loaded_data['autotuner']
                 self.append_autotuner(autotuner, file)
-- 
2.43.0


From 05e6cddd5a723de6009f4349aa90fc605f7f5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 20/55] fix: replace removed numpy features in the sensing dot
 evaluation and simulation

---
 qtune/basic_dqd.py | 2 +-
 qtune/evaluator.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..db1dca8 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -133,7 +133,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d30378c..bbd54f5 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -644,7 +644,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -654,7 +654,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[int(0.5 * self.measurements[0].options['N_points'])]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From 974584bb80e17e57dc45a7d6b76a86d80838ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 21/55] fix: save all settings of the evaluators

The direction of the flank, the sample rate and the transition width silently
returned to their default values when a state was reloaded.
---
 qtune/evaluator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index bbd54f5..8d9ece9 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -576,7 +577,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
@@ -596,7 +597,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -663,7 +664,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -767,7 +769,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From c26382c763bfd71dd368a97b61009071a6047fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 22/55] fix: let the interpreter exit while a storage worker is
 waiting for data

The worker thread was not daemonic and is only stopped by join(), so that a
program which used the asynchronous storage never terminated. The accepted data
is now written at exit.
---
 qtune/storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index e268029..60bb646 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -14,6 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
+import atexit
 import warnings
 import copy
 import itertools
@@ -22,6 +23,7 @@ import logging
 import threading
 import queue
 import multiprocessing
+import weakref
 
 from typing import Union, Iterable, Generator
 
@@ -326,6 +328,12 @@ def _writer_target(write_queue: Union[multiprocessing.JoinableQueue, queue.Queue
             write_queue.task_done()
 
 
+def _join_at_exit(writer_reference):
+    writer = writer_reference()
+    if writer is not None:
+        writer.join()
+
+
 class AsynchronousHDF5Writer:
     """
     The asynchronous writer can improve the performance by writing in separate threads.
@@ -346,10 +354,12 @@ class AsynchronousHDF5Writer:
         self._queue = None
 
         self._initialize()
+        atexit.register(_join_at_exit, weakref.ref(self))
 
     def _initialize(self):
         self._queue = self.QueueType()
-        self._worker = self.WorkerType(target=_writer_target, args=(self._queue,))
+        # a non daemonic worker which is waiting for its next task would prevent the interpreter from exiting
+        self._worker = self.WorkerType(target=_writer_target, args=(self._queue,), daemon=True)
         self._worker.start()
 
     def restart(self):
-- 
2.43.0


From f47b85b4261af814e13beaeac17b47f30a3708c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 23/55] fix: recognise the experiment when the storage worker
 is a separate process

The placeholder of the experiment lost its identity when it was pickled, so that
its id was saved instead of the reference to the reserved object.
---
 qtune/experiment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/experiment.py b/qtune/experiment.py
index 82646e4..ce04169 100644
--- a/qtune/experiment.py
+++ b/qtune/experiment.py
@@ -54,6 +54,10 @@ class Measurement(metaclass=HDF5Serializable):
         return "{type}({data})".format(type=type(self), data=self.to_hdf5())
 
 
+class _ExperimentID(int):
+    """Placeholder of an Experiment. In contrast to an int, it keeps its identity if it is pickled repeatedly."""
+
+
 class Experiment:
     """
     Basic class implementing the structure of an experiment consisting of gates whose voltages can be set and read.
@@ -88,4 +92,4 @@ class Experiment:
         raise NotImplementedError()
 
     def __deepcopy__(self, memodict={}):
-        return id(self)
+        return _ExperimentID(id(self))
-- 
2.43.0


From ae7335c9bcd2c2a21f293a59395d19c4aea823cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:57 +0000
Subject: [PATCH 24/55] fix: report fits without a signal as failed evaluation

---
 qtune/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 8d9ece9..6219a91 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -433,6 +433,8 @@ class InterDotTCByLineScan(FittingEvaluator):
             func_inter_dot_coupling(x_data[int(0.3 * n_points):n_points], popt[0], popt[1], popt[2], popt[3],
                                     popt[4])
         residual = np.nanmean(np.square(residuals)) / (popt[2] * popt[2]) * 2e4
+        if not np.isfinite(residual):
+            raise RuntimeError('The fit did not find a transition.')
         fitresult = pd.Series(data=popt, index=['offset', 'slope', 'height', 'position', 'width'])
         return fitresult, residual
 
@@ -494,6 +496,8 @@ class NewLoadTime(FittingEvaluator):
         self._initial_fit_arguments.iloc[:] = p0
         residuals = y_data - func_load_time(x_data, popt[0], popt[1], popt[2])
         residual = np.nanmean(np.square(residuals)) / (popt[1] * popt[1]) * 1500.
+        if not np.isfinite(residual):
+            raise RuntimeError('The fit did not find a decay.')
         return pd.Series(data=popt, index=['offset', 'height', 'curvature']), residual
 
     def to_hdf5(self):
-- 
2.43.0


From 6b84699fb850f0688c81113191d4fd44fcbeb7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 25/55] fix: discard the slices of an interrupted voltage step
 if the targets change

---
 qtune/autotuner.py       | 2 ++
 qtune/parameter_tuner.py | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..21e8e3c 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -215,6 +215,8 @@ class Autotuner(metaclass=HDF5Serializable):
         assert (len(target_changes) <= len(self.tuning_hierarchy))
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
+        for par_tuner in self.tuning_hierarchy:
+            par_tuner.discard_step()
         self._current_tuner_index = 0
         self._current_tuner_status = False
         self._voltages_to_set = None
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 8b0a7b5..161651d 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -186,6 +186,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         """
         raise NotImplementedError()
 
+    def discard_step(self):
+        """Forget about a voltage step which is not completed yet."""
+
     def restart(self, new_voltages):
         self.last_voltages = new_voltages
         self.solver.restart(new_voltages)
@@ -287,8 +290,11 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
-    def restart(self, new_voltages):
+    def discard_step(self):
         self._number_queued_steps = 0
+
+    def restart(self, new_voltages):
+        self.discard_step()
         super().restart(new_voltages)
 
     def to_hdf5(self):
-- 
2.43.0


From 3daed4a45ba4f9b1f78e3d15a06a746e9fc3f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 26/55] fix: do not count a point measured twice in the finite
 differences

---
 qtune/gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 00bcf70..ec2d547 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -195,6 +195,10 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 # the base point is not part of the symmetric differences
                 return
 
+            if any(position.equals(stored_position) for stored_position, *_ in self._stored_measurements):
+                # a point which is measured again (i.e. after a change of the targets) is not a further point
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From b3aaa7dde6e40908a08c103927b1c4fd9c9085a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 27/55] fix: recover from failed expensive measurements of the
 sensing dot

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 161651d..fab4609 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -385,6 +385,10 @@ class SensingDotTuner(ParameterTuner):
                 self._last_parameter_values[current_parameter.index] = current_parameter[current_parameter.index]
                 self._last_parameters_variances[current_parameter.index] = variances[current_parameter.index]
 
+                if current_parameter.isnull().values.any():
+                    self._last_evaluation_failed = True
+                    return False
+
             self.solver.update_after_step(voltages, current_parameter, variances)
             return False
         else:
-- 
2.43.0


From d9d39b6ee5ba24853b5e7b73b4da036633dd95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 28/55] fix: report fits of undefined, infinite or constant
 data as failed evaluation

---
 qtune/evaluator.py | 65 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 6219a91..57f8776 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -25,6 +25,22 @@ import logging
 from qtune.storage import HDF5Serializable
 
 
+# raised if a fit does not converge or if the data contains undefined or infinite values
+FIT_ERRORS = (RuntimeError, ValueError, np.linalg.LinAlgError)
+
+
+def _require_signal(y_data: np.ndarray):
+    """Raises an error if the data is constant up to rounding errors because fits of such data yield arbitrary results."""
+    if np.ptp(y_data) <= 1e-12 * np.max(np.abs(y_data)):
+        raise RuntimeError('The data contains no signal.')
+
+
+def _require_finite(coefficients: np.ndarray):
+    """Raises an error if a polynomial fit of undefined or infinite data did not raise one itself."""
+    if not np.all(np.isfinite(coefficients)):
+        raise RuntimeError('The data could not be fitted.')
+
+
 class Evaluator(metaclass=HDF5Serializable):
     """
     The evaluator classes conduct measurements, calculate the parameters with the scan data and save the results in the
@@ -154,7 +170,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except FIT_ERRORS:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -170,6 +191,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         n_points = len(y_data)
         x_data = np.arange(start=0, stop=n_points) / self.sample_rate
         self._raw_x_data = x_data
+        _require_signal(y_data)
         p0 = [y_data[round(.25 * n_points)] - y_data[round(.75 * n_points)],
               self.evaluation_arguments['t_fall'], self.evaluation_arguments['t_rise'],
               self.evaluation_arguments['begin_rise'], self.evaluation_arguments['begin_fall'], np.mean(y_data)]
@@ -191,9 +213,11 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
                                         ydata=y_data)
         self._fit_results = pd.Series(data=popt, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
                                                         'offset'])
-        self.evaluation_arguments = self._fit_results
         residuals = y_data - func_lead_times_v1(x_data, **dict(self._fit_results))
         scaled_residual = np.nanmean(residuals) / self._fit_results['height']
+        if not np.isfinite(scaled_residual):
+            raise RuntimeError('The fit did not find a transition.')
+        self.evaluation_arguments = self._fit_results
         return self._fit_results, scaled_residual
 
     def to_hdf5(self):
@@ -257,7 +281,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except FIT_ERRORS:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset',
+                                                      'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
@@ -274,6 +304,7 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
         x_data = np.arange(start=0, stop=len(y_data)) / self.sample_rate
         self._raw_x_data = x_data
         n_points = len(y_data)
+        _require_signal(y_data)
         p0 = [y_data[round(.25 * n_points)] - y_data[round(.75 * n_points)],
               self.evaluation_arguments['t_fall'], self.evaluation_arguments['t_rise'],
               self.evaluation_arguments['begin_rise'], self.evaluation_arguments['begin_fall'], np.mean(y_data)]
@@ -305,6 +336,8 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
                                      'length_lin_rise'])
         residuals = y_data - func_lead_times_v2(x_data, **dict(fitresult))
         scaled_residual = np.nanmean(residuals) / fitresult['height']
+        if not np.isfinite(scaled_residual):
+            raise RuntimeError('The fit did not find a transition.')
         qtune.util.plot_raw_data_fit(y_data=y_data, x_data=x_data)
         # TODO: properly scale and use residual
         return fitresult, scaled_residual
@@ -389,7 +422,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                        n_points)
         try:
             fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))
-        except RuntimeError:
+        except FIT_ERRORS:
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
@@ -405,6 +438,7 @@ class InterDotTCByLineScan(FittingEvaluator):
         if len(y_data.shape) == 2:
             y_data = np.nanmean(y_data, 0)
         n_points = x_data.size
+        _require_signal(y_data)
         poly_fit_result_start = np.polyfit(x=x_data[:round(.25 * n_points)], y=y_data[:round(.25 * n_points)], deg=1)
         poly_fit_result_end = np.polyfit(x=x_data[-round(.25 * n_points):], y=y_data[-round(.25 * n_points):], deg=1)
         height = (poly_fit_result_end[1] + poly_fit_result_end[0] * x_data[-1]) - (
@@ -471,7 +505,7 @@ class NewLoadTime(FittingEvaluator):
         data = self.experiment.measure(self.measurements[0])
         try:
             fitresult, residual = self.process_raw_data(data)
-        except RuntimeError:
+        except FIT_ERRORS:
             self.logger.error('The following evaluator could not fit its data:' + str(self))
             fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])
             residual = np.nan
@@ -485,6 +519,7 @@ class NewLoadTime(FittingEvaluator):
         x_data = raw_data[1, :]
         y_data = raw_data[0, :]
         initial_curvature = self.initial_curvature
+        _require_signal(y_data)
         # p0 = [np.nanmin(y_data), np.nanmax(y_data) - np.nanmin(y_data), initial_curvature]
         p0 = [np.nanmin(y_data), y_data[0] - y_data[-1], initial_curvature]
         bounds = ([-np.inf, -np.inf, 2.],
@@ -635,10 +670,14 @@ class SensingDot1D(Evaluator):
             stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
             num=self.measurements[0].options['N_points'])
 
-        current_signal, optimal_signal, optimal_position = self.process_raw_data(raw_data=(self._raw_x_data,
-                                                                                           self._raw_y_data))
+        try:
+            current_signal, optimal_signal, optimal_position = self.process_raw_data(raw_data=(self._raw_x_data,
+                                                                                               self._raw_y_data))
+        except FIT_ERRORS:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            current_signal, optimal_signal, optimal_position = np.nan, np.nan, np.nan
         values["position_" + gate] = optimal_position
-        error["position_" + gate] = 0.1e-3
+        error["position_" + gate] = 0.1e-3 if np.isfinite(optimal_position) else np.nan
         values["current_signal"] = current_signal
         error["current_signal"] = current_signal / 5
         values["optimal_signal"] = optimal_signal
@@ -649,6 +688,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
+        _require_finite(coef)
         polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
@@ -717,7 +757,13 @@ class SensingDot2D(Evaluator):
                                                 self.measurements[0].options['range'],
                                                 self._raw_y_data.shape[i]))
         # self._new_voltages, error = self.process_raw_data(data)
-        self._new_voltages, error = self.process_raw_data((self._raw_x_data, np.squeeze(self._raw_y_data)))
+        try:
+            self._new_voltages, error = self.process_raw_data((self._raw_x_data, np.squeeze(self._raw_y_data)))
+        except FIT_ERRORS:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._new_voltages = pd.Series(np.nan, ["position_" + self.measurements[0].options["gate1"],
+                                                    "position_" + self.measurements[0].options["gate2"]])
+            error = self._new_voltages.copy()
         # self._new_voltages["position_" + self.measurements[0].options["gate1"]] += \
         #     self.measurements[0].options['center'][0]
         # self._new_voltages["position_" + self.measurements[0].options["gate2"]] += \
@@ -752,6 +798,7 @@ class SensingDot2D(Evaluator):
         differentiated_approximation = np.zeros(shape=(raw_y_data.shape[0], raw_y_data.shape[1] - 1))
         for i, data_line in enumerate(raw_y_data):
             coef = np.polynomial.polynomial.polyfit(raw_x_data[1], data_line, deg=40)
+            _require_finite(coef)
             poly = np.poly1d(coef[::-1])
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
-- 
2.43.0


From 6accaabe50ee9bf0f736a2c51c62ed0e40c50997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 29/55] fix: report errors of the disk while a file is written
 and never leave a file incomplete

---
 qtune/history.py |  3 ++-
 qtune/storage.py | 42 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index b5479f7..2016284 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -333,7 +333,8 @@ class History:
         with qtune.storage.ParallelHDF5Reader(reserved={'experiment': self.experiment}, multiprocess=False) as reader:
             directory_content = [os.path.join(path, file)
                                  for file in sorted(os.listdir(path))
-                                 if os.path.isfile(os.path.join(path, file))]
+                                 if os.path.isfile(os.path.join(path, file)) and
+                                 not file.endswith(qtune.storage.TEMPORARY_SUFFIX)]
             for file, loaded_data in zip(directory_content, reader.read_iter(directory_content)):
                 autotuner = loaded_data['autotuner']
                 self.append_autotuner(autotuner, file)
diff --git a/qtune/storage.py b/qtune/storage.py
index 60bb646..81bc61a 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -17,8 +17,10 @@
 import atexit
 import warnings
 import copy
+import io
 import itertools
 import logging
+import os
 
 import threading
 import queue
@@ -39,6 +41,9 @@ __all__ = ["serializables", "HDF5Serializable", 'from_hdf5', 'AsynchronousHDF5Wr
 
 serializables = dict()
 
+# files with this suffix are not completely written
+TEMPORARY_SUFFIX = '.part'
+
 
 def _get_dtype(arr):
     if arr.dtype == 'O':
@@ -169,12 +174,41 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
     raise RuntimeError()
 
 
+def _update_file(filename: str, update):
+    """
+    Applies update to the contents of a new or existing file. The HDF5 library neither reports errors nor recovers from
+    errors while it writes to the disk when a file is closed. Therefore, the file is assembled in memory and only replaced
+    after everything was written.
+    :param filename:
+    :param update: Function that is called with the opened file.
+    :return: None
+    """
+    buffer = io.BytesIO()
+    if os.path.exists(filename):
+        with open(filename, 'rb') as file:
+            buffer.write(file.read())
+
+    with h5py.File(buffer, mode='a') as root:
+        update(root)
+
+    temporary_file = filename + TEMPORARY_SUFFIX
+    try:
+        with open(temporary_file, 'wb') as file:
+            file.write(buffer.getvalue())
+        os.replace(temporary_file, filename)
+    except BaseException:
+        if os.path.exists(temporary_file):
+            os.remove(temporary_file)
+        raise
+
+
 def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
             reserved=None):
-    if isinstance(filename_or_handle, h5py.Group):
-        root = filename_or_handle
-    else:
-        root = h5py.File(filename_or_handle, mode='a')
+    if not isinstance(filename_or_handle, h5py.Group):
+        _update_file(filename_or_handle, lambda root: to_hdf5(root, name, obj, reserved=reserved))
+        return
+
+    root = filename_or_handle
 
     if '#version' not in root:
         root.attrs['#version'] = get_version()
-- 
2.43.0


From a0e0b988601334a3382f6ed59013585c862d9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 30/55] fix: histories of tunings with unknown gradients

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 2016284..de60e17 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -562,11 +562,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(dtype=float)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame(dtype=float)
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From 705463b1af0507bc68f18e211fef4d4cb62261a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 31/55] fix: covariances and unusual names of parameters and
 gates in the history

---
 qtune/history.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index de60e17..0e65b65 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,13 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
-
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns], names=[None, None])
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +233,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From f0a11501521f9e0dd2164e8e889a965fd958c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 32/55] fix: the history shows parameters only where they were
 measured

---
 qtune/history.py         | 9 +++++++--
 qtune/parameter_tuner.py | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 0e65b65..28a6906 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -547,8 +547,13 @@ def extract_parameters_from_hierarchy(tuning_hierarchy) -> (pd.Series, pd.Series
         if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
             relevant_parameters = par_tuner.solver.target.desired.index[
                 ~par_tuner.solver.target.desired.apply(np.isnan)]
-            parameters = parameters.append(parameter[relevant_parameters])
-            variances = variances.append(variance[relevant_parameters])
+            parameter = parameter[relevant_parameters]
+            variance = variance[relevant_parameters]
+            if not par_tuner.evaluated_at_last_voltages:
+                # these values were measured elsewhere
+                parameter, variance = parameter * np.nan, variance * np.nan
+            parameters = parameters.append(parameter)
+            variances = variances.append(variance)
         else:
             parameters = parameters.append(parameter)
             variances = variances.append(variance)
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fab4609..57ea772 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -152,6 +152,12 @@ class ParameterTuner(metaclass=HDF5Serializable):
     def last_evaluation_failed(self) -> bool:
         return self._last_evaluation_failed
 
+    @property
+    def evaluated_at_last_voltages(self) -> bool:
+        """False if the last parameters were measured at other voltages than the last voltages."""
+        return self._last_evaluation_failed or (len(self._evaluatable_voltages) > 0 and
+                                                self._evaluatable_voltages[-1].equals(self._last_voltage))
+
     @property
     def evaluators(self) -> Tuple[Evaluator, ]:
         return self._evaluators
-- 
2.43.0


From 5e401731a4f4f149cfc676765c27b7ba6bb610a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 33/55] fix: show parameters which were measured again at the
 same position in the history

---
 qtune/history.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 28a6906..2f323aa 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -310,10 +310,9 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
-            new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
+            new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
-            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
+            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
             if not new_evaluator_data.empty:
                 self._evaluator_data.loc[self._evaluator_data.index[-1], new_evaluator_data.columns] = \
                     new_evaluator_data.iloc[0]
-- 
2.43.0


From bcafe4e032b9bec559d9d03660334f44195f9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 34/55] fix: enable the start and step buttons after the worker
 of the GUI was restarted

---
 qtune/gui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 0b74b9c..74a8078 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -695,6 +695,9 @@ class GUI(QtWidgets.QMainWindow):
         self._continuous = False
         self._stepped = False
         self._stop = False
+        self._start_btn.setEnabled(True)
+        self._step_btn.setEnabled(True)
+        self._stop_btn.setEnabled(False)
         self._thread.start()
 
     def _work(self):
-- 
2.43.0


From aafbc66d12645847b209255d5610435393bcaf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 35/55] fix: starting at the moment when the worker of the GUI
 pauses left the wrong buttons enabled

---
 qtune/gui.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 74a8078..d9fed4c 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -14,7 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
-from threading import Thread
+from threading import Thread, RLock
 import time
 import logging
 import functools
@@ -50,6 +50,15 @@ def log_exceptions(channel='qtune', catch_exceptions=True):
     return logging_decorator
 
 
+def atomic(func):
+    """The worker of the GUI pauses itself: its flags and the buttons must not be changed by the user half way through."""
+    @functools.wraps(func)
+    def wrapper(self):
+        with self._state_lock:
+            return func(self)
+    return wrapper
+
+
 class FunctionHandler(logging.Handler):
     def __init__(self, func, level=logging.NOTSET):
         super().__init__(level=level)
@@ -561,6 +570,7 @@ class GUI(QtWidgets.QMainWindow):
 
         self._logger = logger
 
+        self._state_lock = RLock()
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -732,6 +742,7 @@ class GUI(QtWidgets.QMainWindow):
     def log(self, msg: str):
         self._log_signal.emit(msg)
 
+    @atomic
     def start(self):
         if not self._thread.is_alive():
             self.logger.warning('Worker thread is dead. Restarting...')
@@ -748,6 +759,7 @@ class GUI(QtWidgets.QMainWindow):
         self._step_btn.setEnabled(False)
         self._stop_btn.setEnabled(True)
 
+    @atomic
     def step(self):
         if not self._thread.is_alive():
             self.logger.warning('Worker thread is dead. Restarting...')
@@ -756,6 +768,7 @@ class GUI(QtWidgets.QMainWindow):
         self.logger.info('Order worker to do one step')
         self._stepped = True
 
+    @atomic
     def pause(self):
         if not self._thread.is_alive():
             self.logger.warning('Worker thread already dead')
-- 
2.43.0


From c2a90067fe349fe30da923162550636812533613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 36/55] fix: enter the tuning which was iterated into the
 history of the GUI if it is exchanged meanwhile

---
 qtune/gui.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index d9fed4c..6c6dcdc 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -716,17 +716,19 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
-                if self.auto_tuner:
+                # it may be exchanged by reloading while it iterates
+                auto_tuner = self.auto_tuner
+                if auto_tuner:
                     try:
 
-                        if self.auto_tuner.is_tuning_complete():
+                        if auto_tuner.is_tuning_complete():
                             self.logger.info('Tuning completed')
                             self.pause()
                         else:
-                            self.auto_tuner.iterate()
+                            auto_tuner.iterate()
 
                             if self.history:
-                                self.history.append_autotuner(self._auto_tuner)
+                                self.history.append_autotuner(auto_tuner)
 
                             self._update_plots.emit()
 
-- 
2.43.0


From 87f1f1cdd0762009c989bc97d202c8367798770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 37/55] fix: parameters which get or lose their desired value
 were judged by the targets at construction

---
 qtune/parameter_tuner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 57ea772..1891b09 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -236,6 +236,14 @@ class SubsetTuner(ParameterTuner):
     def tunable_gates(self):
         return self._tunable_gates
 
+    @ParameterTuner.target.setter
+    def target(self, changes):
+        self.solver.target = changes
+        # parameters are only relevant while they have a desired value
+        relevant_parameters = self._get_relevant_parameters()
+        self._last_parameter_values = self._last_parameter_values.reindex(relevant_parameters)
+        self._last_parameters_variances = self._last_parameters_variances.reindex(relevant_parameters)
+
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
         Checks if the parameters agree with the target within the tolarance.
-- 
2.43.0


From d6a3f03c1f19d404363a85a8aef03b1378d1110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 38/55] fix: the MATLAB backends could not be imported
 (undefined name, removed numpy aliases)

---
 qtune/sm.py          | 2 +-
 qtune/sm_tune_qqd.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..dc53340 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From ca9131788324ce9201d6f2476918be313cd11b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 39/55] fix: numpy scalars and thus all voltages could not be
 converted to MATLAB (np.asscalar was removed)

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index dc53340..b4cdf90 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-- 
2.43.0


From 1e5f9d885193795d990010880aaac173373baa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 40/55] fix: convert tuples to tuples, not to generators, which
 MATLAB does not accept

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index b4cdf90..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From a9b622c583f16b2a7c3b14ba382c5bfbba3edcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 41/55] fix: QQDResp rejected all positions unless a maximal
 position was given

---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From 3fb814f3d9dc22dc6704d2acbd82db7dbd4ceba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 42/55] fix: SMQQDPassThru asks the experiment for the name of
 the last file, which it could not tell

---
 qtune/sm_tune_qqd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index f7673a6..6708864 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -157,6 +157,7 @@ class SMTuneQQD(Experiment):
                 measurement.options[key] = self._matlab.to_matlab(measurement.options[key])
 
         result = self.pytune(measurement)
+        self._last_file_name = result['data'].args.fullFile
 
         if measurement.name in ['line', 'lead', 'load', 'load pos', 'chrg rnd', 'chrg s', 'sensor', 'sensor 2d', 'chrg',
                                 'resp']:
@@ -170,6 +171,9 @@ class SMTuneQQD(Experiment):
 
         return ret
 
+    def get_last_file_name(self):
+        return self._last_file_name
+
     def __repr__(self):
         return "{type}({data})".format(type=type(self).__name__,
                                        data=self._matlab.engine.matlab.engine.engineName())
-- 
2.43.0


From 28c2cd4e40f355946b265e73707f5e2f4fcbc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 43/55] fix: an error while SMQQDPassThru estimated its errors
 left them undefined forever

---
 qtune/sm_tune_qqd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 6708864..f521e3e 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -205,9 +205,14 @@ class SMQQDPassThru(Evaluator):
         values = []
 
         self._error = pd.Series(index=self.parameters)
-        for i in range(self._n_error_estimate):
-            tmp, _ = self.evaluate()
-            values.append(tmp)
+        try:
+            for i in range(self._n_error_estimate):
+                tmp, _ = self.evaluate()
+                values.append(tmp)
+        except BaseException:
+            # estimate the error the next time
+            self._error = None
+            raise
 
         df = pd.DataFrame(values)
         self._error = df.var(0)
-- 
2.43.0


From 738aff6d71a0275c8932dc214dd89a5fa42e1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 44/55] fix: measuring twice without variance at the same
 voltages ended the tuning (singular matrix)

---
 qtune/kalman_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/kalman_gradient.py b/qtune/kalman_gradient.py
index facca5b..1d3c573 100644
--- a/qtune/kalman_gradient.py
+++ b/qtune/kalman_gradient.py
@@ -110,6 +110,8 @@ class KalmanGradient(metaclass=HDF5Serializable):
         
         # creating the KalmanFilter object
         self.filter = KalmanFilter(dim_x, self.n_values)
+        # measurements without variance of what is known exactly do not contain any information
+        self.filter.inv = np.linalg.pinv
         
         # if no state transition function is given, 
         # we assume our system has no dynamics
-- 
2.43.0


From c50c768550c4ed58f5acbcecda0f5eedd2e3bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 45/55] fix: the reload window showed row 1 but reloaded row 0
 until a number was entered

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 6c6dcdc..8fc6309 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -416,7 +416,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self._tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From 9c27cbe73d8d5087fa04b49482fc63ee6ac2555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 46/55] fix: reload windows kept using the tuning that was
 exchanged in another window

---
 qtune/gui.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 8fc6309..51883f2 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -617,6 +617,8 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        for reload_widget in self._reload_windows:
+            reload_widget.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From abf8652b2e702b2a600ca921418148acdac880f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 47/55] fix: an error while a state was reloaded left the
 reload window with another tuning than the GUI

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 51883f2..ea9d39e 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -470,8 +470,8 @@ class ReloadWidget(pg.LayoutWidget):
         if self.auto_tuner:
             reload_file = self.history.get_reload_path(self.tune_run_number)
             new_autotuner = qtune.autotuner.load_auto_tuner(file=reload_file, reserved=self.auto_tuner.reserved)
-            self.auto_tuner = new_autotuner
             new_autotuner.restart()
+            self.auto_tuner = new_autotuner
             self.gui_get_auto_tuner.emit()
         else:
             self.logger.warning("No Autotuner connected to the History. Previous state could not be reloaded!")
-- 
2.43.0


From c4bae6923728680767add63a245bb6c038bcc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 48/55] fix: reloading voltages or a state in the middle of an
 iteration mixed up voltages and tunings

---
 qtune/gui.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index ea9d39e..9383a72 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -59,6 +59,20 @@ def atomic(func):
     return wrapper
 
 
+def between_iterations(func):
+    """The voltages and the tuning must not be exchanged in the middle of an iteration."""
+    @functools.wraps(func)
+    def wrapper(self):
+        if not self._iteration_lock.acquire(blocking=False):
+            self.logger.warning("An iteration is in progress. Pause the tuning and reload when it is finished!")
+            return
+        try:
+            return func(self)
+        finally:
+            self._iteration_lock.release()
+    return wrapper
+
+
 class FunctionHandler(logging.Handler):
     def __init__(self, func, level=logging.NOTSET):
         super().__init__(level=level)
@@ -397,10 +411,11 @@ class MeasurementDataWidget(QTuneMatplotWidget):
 class ReloadWidget(pg.LayoutWidget):
     gui_get_auto_tuner = QtCore.pyqtSignal()
 
-    def __init__(self, history, autotuner, logger='qtune', *args, **kwargs):
+    def __init__(self, history, autotuner, logger='qtune', iteration_lock=None, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.history = history
         self.auto_tuner = autotuner
+        self._iteration_lock = iteration_lock or RLock()
         self._logger = logger
         self._tune_run_number = 0
         warning_label = QtWidgets.QLabel('This Window allows you to reload a previous state of the Autotuner!')
@@ -456,6 +471,7 @@ class ReloadWidget(pg.LayoutWidget):
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
+    @between_iterations
     def reload_voltages(self):
         voltages = self.history.get_gate_values(pd.Index(self.history.gate_names)).iloc[self.tune_run_number]
         if self.auto_tuner:
@@ -466,6 +482,7 @@ class ReloadWidget(pg.LayoutWidget):
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
+    @between_iterations
     def reload_autotuner(self):
         if self.auto_tuner:
             reload_file = self.history.get_reload_path(self.tune_run_number)
@@ -571,6 +588,7 @@ class GUI(QtWidgets.QMainWindow):
         self._logger = logger
 
         self._state_lock = RLock()
+        self._iteration_lock = RLock()
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -623,7 +641,8 @@ class GUI(QtWidgets.QMainWindow):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def spawn_reload_window(self):
-        reload_widget = ReloadWidget(history=self.history, autotuner=self.auto_tuner, logger=self._logger)
+        reload_widget = ReloadWidget(history=self.history, autotuner=self.auto_tuner, logger=self._logger,
+                                     iteration_lock=self._iteration_lock)
         reload_widget.setWindowFlags(QtCore.Qt.Window)
         reload_widget.closeEvent = functools.partial(self._close_child, reload_widget)
 
@@ -718,11 +737,12 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
-                # it may be exchanged by reloading while it iterates
+                # it may be exchanged by reloading between the iterations
                 auto_tuner = self.auto_tuner
                 if auto_tuner:
+                    self._iteration_lock.acquire()
                     try:
-
+                        auto_tuner = self.auto_tuner
                         if auto_tuner.is_tuning_complete():
                             self.logger.info('Tuning completed')
                             self.pause()
@@ -737,6 +757,8 @@ class GUI(QtWidgets.QMainWindow):
                     except Exception:
                         self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
+                    finally:
+                        self._iteration_lock.release()
                 else:
                     self.logger.error('No Autotuner: Pausing...')
                     self.pause()
-- 
2.43.0


From 8c6fe9831bdaa4b89d79a32c3670dbd2067c308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 49/55] fix: parameters without a description could not be
 plotted

---
 qtune/history.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 2f323aa..60ff692 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -99,6 +99,10 @@ parameter_information = {
 }
 
 
+def describe_parameter(name: str) -> Dict[str, str]:
+    return parameter_information.get(name, {"entity_unit": name, "name": name, "gradient_unit": "Gradient " + name})
+
+
 def read_files(file_or_files, reserved=None):
     if isinstance(file_or_files, str):
         files = [file_or_files]
@@ -504,8 +508,8 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        ax.set_ylabel(describe_parameter(par_name)["entity_unit"])
+        ax.set_title(describe_parameter(par_name)["name"])
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -528,7 +532,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        ax.set_ylabel(describe_parameter(parameter_name)["gradient_unit"])
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From c0601a898d45a7412c362e006c806d1e6b8f63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 50/55] fix: gradients could not be plotted if there was only
 one or if one was not known yet

---
 qtune/history.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 60ff692..d5adc5d 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -522,11 +522,15 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
 
     if axes is None:
         grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
+        grad_ax = np.ravel(grad_ax)
     else:
         grad_fig, grad_ax = None, axes
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
-        if parameter_name in gradient_std:
+        if gradient.empty:
+            # not known yet
+            pass
+        elif parameter_name in gradient_std:
             gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
 
         else:
-- 
2.43.0


From b2165319c11a2d8cc3c47926c44c070d96fa810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 51/55] fix: the gradient window failed if a parameter was not
 controlled by gradients or if there was only one

---
 qtune/gui.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 9383a72..3ee709a 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -332,7 +332,7 @@ class QTuneMatplotWidget(MatplotlibWidget):
             return self.getFigure().axes
         else:
             self.getFigure().clear()
-            return self.getFigure().subplots(nrows=number_rows)
+            return list(np.ravel(self.getFigure().subplots(nrows=number_rows)))
 
     @property
     def parameter_names(self):
@@ -364,9 +364,18 @@ class GradientWidget(QTuneMatplotWidget):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @property
+    def parameter_names(self):
+        if self._parameter_names is None:
+            return sorted(self.history.gradient_controlled_parameter_names)
+        return self._parameter_names
+
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
+        if not self.parameter_names:
+            return
+
         gradients = {par_name: self.history.get_gradients(parameter_name=par_name)
                      for par_name in self.parameter_names}
 
-- 
2.43.0


From 39ab7dd6b26c4587d8db86aaa77abc0b02aa6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 52/55] fix: the evaluator window showed the raw data of
 another row than it said

---
 qtune/gui.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 3ee709a..7918a78 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -118,7 +118,7 @@ class EvaluatorWidget(pg.LayoutWidget):
         tune_run_label.setFixedWidth(150)
         top.addWidget(tune_run_label, 0, 2)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('0')
+        self.tune_run_line.setText(str(self.tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         top.addWidget(self.tune_run_line, 1, 2)
@@ -399,20 +399,20 @@ class MeasurementDataWidget(QTuneMatplotWidget):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-        if self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name] != \
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name]:
+        if self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name] != \
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name]:
             return
         if self.evaluator_name.startswith('Averaging'):
             num_measurements = len(
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name][
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name][
                     'evaluator'].measurements)
         else:
             num_measurements = len(
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name]['measurements'])
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name]['measurements'])
 
         axes = self.get_clear_axes(number_rows=num_measurements)
         self.history.plot_single_evaluator_data(ax=axes, evaluator_name=self.evaluator_name,
-                                                tune_run_number=self.tune_run_number - 1)
+                                                tune_run_number=self.tune_run_number)
         self.getFigure().tight_layout()
         self.draw()
 
-- 
2.43.0


From eacd1ffc726afb94a258b1e17e314ad8a035b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 53/55] fix: the plot window could not be opened with present
 versions of pyqtgraph

---
 qtune/gui.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 7918a78..81807ea 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -259,19 +259,19 @@ class PlotOrganizer(pg.LayoutWidget):
     def __init__(self, history: History, **kwargs):
         super().__init__(**kwargs)
 
-        gates = {'name': 'Gate Voltages', 'type': 'group', 'children': [
+        gates = {'name': 'Gate Voltages', 'type': 'group', 'value': None, 'children': [
             {'name': name, 'type': 'bool', 'value': False} for name in history.gate_names
         ]}
 
-        params = {'name': 'Parameters', 'type': 'group', 'children': [
-            {'name': name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
+        params = {'name': 'Parameters', 'type': 'group', 'value': None, 'children': [
+            {'name': name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': ''}
             for name in history.parameter_names
         ]}
 
-        grads = {'name': 'Gradients', 'type': 'group', 'children': [
-            {'name': parameter_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': '',
+        grads = {'name': 'Gradients', 'type': 'group', 'value': None, 'children': [
+            {'name': parameter_name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': '',
              'expanded': False, 'children': [
-                {'name': gate_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
+                {'name': gate_name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': ''}
                 for gate_name in gates
             ]} for parameter_name, gates in history.gradient_controlled_parameter_names.items()
         ]}
-- 
2.43.0


From 272211d04e13af84d94ff980f91e7b30f7ba244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 54/55] fix: a sensing dot solver could move gates which the
 experiment does not have

---
 qtune/autotuner.py | 9 ++++++++-
 qtune/solver.py    | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index 21e8e3c..0ddf937 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -22,7 +22,7 @@ from qtune.util import time_string
 from qtune.experiment import Experiment
 from typing import List, Optional, Dict
 from qtune.parameter_tuner import ParameterTuner, SubsetTuner
-from qtune.solver import NewtonSolver
+from qtune.solver import NewtonSolver, ForwardingSolver
 from qtune.storage import HDF5Serializable, from_hdf5, AsynchronousHDF5Writer
 import logging
 
@@ -182,6 +182,13 @@ class Autotuner(metaclass=HDF5Serializable):
                 self.logger.error(set(par_tuner.solver.current_position.index) - all_gates)
                 naming_coherent = False
 
+            if isinstance(solver, ForwardingSolver):
+                if not set(solver.values_to_position.dropna()).issubset(all_gates):
+                    self.logger.error("The following gates are not known to the experiment but shall be moved by the "
+                                      "solver of parameter tuner number " + str(tuner_number))
+                    self.logger.error(set(solver.values_to_position.dropna()) - all_gates)
+                    naming_coherent = False
+
             if isinstance(solver, NewtonSolver):
                 for gradient_estimator in solver.gradient_estimators:
                     if gradient_estimator.current_position is not None:
diff --git a/qtune/solver.py b/qtune/solver.py
index 95a5e5a..c871a4e 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -527,6 +527,10 @@ class ForwardingSolver(Solver):
             next_position = next_position[self._current_position.index]
         self._next_position = next_position
 
+    @property
+    def values_to_position(self) -> pd.Series:
+        return self._values_to_position
+
     def suggest_next_position(self, tuned_parameters) -> pd.Series:
         return self._next_position
 
-- 
2.43.0


From 94649fafe5b6565607eb74d89100e7a0535e4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 55/55] fix: raw data could not be plotted without a list of
 evaluators or for a row without raw data

---
 qtune/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index d5adc5d..9502f71 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -422,7 +422,8 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
-        for name in evaluator_names:
+        evaluator_names = list(self.evaluator_names if evaluator_names is None else evaluator_names)
+        for name in list(evaluator_names):
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
                 evaluator_names.remove(name)
@@ -445,8 +446,8 @@ class History:
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, sum(number_measurements) // 2 + sum(
+                                                           number_measurements) % 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
-- 
2.43.0

