From 919a9aa73ffd9aead87939c48862ecd6576cd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:22 +0000
Subject: [PATCH 01/18] fix: register attributes introduced by
 update_interaction and keep them when it falls back to adding

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..ad1f38d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -238,7 +238,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
@@ -255,6 +255,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 45143e86e8be1ed5ae64f4bf0bb7fa0787111fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 02/18] fix: default timestamp of update_interaction is the
 time of the call, not of the import

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index ad1f38d..0761115 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,12 +206,14 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
         if target and name:
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
+        if timestamp is None:
+            timestamp = current_time()
 
         if coefficient is not None:
             self._check_argument_type("coefficient", coefficient, numbers.Number)
@@ -219,8 +221,7 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 08e7263c3c1ab7c0fca9161a0a27795b8422d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 03/18] fix: fix_variable must not bring removed interactions
 back

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 0761115..cd3d8b8 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -390,8 +390,8 @@ class LogicalModel(AbstractModel):
         # TODO: Delete variable physically
         self._fixed[target.label] = True
 
-        # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Update related interations (ones already removed are not in the model any more)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From d44d1a0e146c896a34d284927b4a06892e9aca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 04/18] fix: delete_variable works whether or not the
 constraints contain the variable, for every constraint kind

---
 sawatabi/model/constraint/abstract_constraint.py        | 3 +++
 sawatabi/model/constraint/equality_constraint.py        | 4 ++++
 sawatabi/model/constraint/n_hot_constraint.py           | 3 +++
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 3 +++
 sawatabi/model/logical_model.py                         | 2 +-
 5 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..cdb6814 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -53,5 +53,8 @@ class AbstractConstraint(BaseMixin):
     def get_strength(self):
         return self._strength
 
+    def discard_variable(self, label):
+        raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
+
     def to_model(self):
         raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..df265fa 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -54,6 +54,10 @@ class EqualityConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables_2 = self._variables_2.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables_1 = {v for v in self._variables_1 if v.label != label}
+        self._variables_2 = {v for v in self._variables_2 if v.label != label}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 91b437d..f9366ef 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -44,6 +44,9 @@ class NHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables = {v for v in self._variables if v.label != label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 5bcea72..b6ce49b 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -44,6 +44,9 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables = {v for v in self._variables if v.label != label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index cd3d8b8..71b1ae7 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -363,7 +363,7 @@ class LogicalModel(AbstractModel):
 
         # Deal with constraints
         for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+            v.discard_variable(target.label)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 3b042039216bbd0e57b03e8aac46240e66eeb00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 05/18] fix: to_ising and to_qubo take the scale of the
 interactions into account

---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 71b1ae7..6aab559 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -723,7 +723,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -731,12 +731,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -758,7 +764,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -766,12 +772,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From e24d8782eca2458111308156268fefd039cd2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 06/18] fix: merge refuses incompatible models before changing
 anything

---
 sawatabi/model/logical_model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6aab559..29d3b18 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -614,16 +614,21 @@ class LogicalModel(AbstractModel):
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
 
-        # Check type
-        if self._mtype != other._mtype:
-            other._convert_mtype()
-
         # Check variables
         for key, value in self._variables.items():
             if key in other._variables.keys():
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
+        # Check type
+        if self._mtype != other._mtype:
+            other._convert_mtype()
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -662,9 +667,6 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From 51a582c52035723d6711d337b8ca75cdef8c22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 07/18] fix: to_physical drops removed interactions by
 position, so names shared with constraints do no harm

---
 sawatabi/model/logical_model.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 29d3b18..f76765d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -503,7 +503,6 @@ class LogicalModel(AbstractModel):
         physical = PhysicalModel(mtype=self._mtype)
 
         linear, quadratic = {}, {}
-        will_remove = []
 
         # Save the model before merging constraints to restore it later
         # original_variables = copy.deepcopy(self._variables)  # Variables will not be changed
@@ -523,7 +522,6 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
@@ -597,11 +595,10 @@ class LogicalModel(AbstractModel):
 
         # Remove interactions
         # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
-            for k in self._interactions_array.keys():
-                self._interactions_array[k].pop(idx)
-            self._interactions_length -= 1
+        alive = [i for i in range(self._interactions_length) if not self._interactions_array["removed"][i]]
+        for k, v in self._interactions_array.items():
+            self._interactions_array[k] = [v[i] for i in alive]
+        self._interactions_length = len(alive)
 
         # Set dirty flag
         for i in range(self._interactions_length):
-- 
2.43.0


From 7283b1cdf85b3f07fa72cd9c380b23aed377daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 08/18] fix: seed 0 is a seed

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From 084bdf15a1012141ad9c4985e2ab949cc6abbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 09/18] fix: SawatabiSolver must not modify the initial states
 of the caller

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..a4e22b1 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: -1 if v == 0 else v for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 93364841e94f6ed270186acdf00d004554f8f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 10/18] fix: empty reverse options mean forward annealing

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index a4e22b1..e429b18 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -168,7 +168,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From 5e644127dde8a028141b6a4129be18a3c132d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 11/18] fix: energy history of SawatabiSolver includes the
 offset with the right sign

---
 sawatabi/solver/sawatabi_solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index e429b18..65001ef 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -157,6 +157,8 @@ class SawatabiSolver(AbstractSolver):
         initial_sample = dict(zip(list(self._model._index_to_label.values()), x))
         # logger.info(f"initial_spins: {initial_sample}")
         initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
+        # Deal with offset (its sign is not opposite)
+        initial_energy += self._original_bqm.offset * 2
         # logger.info(f"initial_energy: {initial_energy}")
 
         if not reverse_options:
@@ -224,9 +226,6 @@ class SawatabiSolver(AbstractSolver):
         # recalc_energy = self._bqm.energy(sample) * -1.0
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From 93111cbe7428e41eba86a0833f104485e3f6a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 12/18] fix: number partitioning with enumerate_all returns the
 empty part when no sum is reachable

---
 sawatabi/utils/npp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..e383c2b 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -34,7 +34,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
 
     # Initialize the top row with True
     for j in range(n + 1):
-        dp[0][j] = (True, [])
+        dp[0][j] = (True, [[]] if enumerate_all else [])
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
-- 
2.43.0


From 860d4e25ef1aa5e6e10a67eda0f222f086f64c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 13/18] fix: the outdated message names the timestamp already
 processed

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..02bb606 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From c9cf563033682006396fade35f00e57fc850f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 14/18] fix: the first window of a stream is never outdated

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 02bb606..2454b28 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = None
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
@@ -97,7 +97,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Sometimes, when we use the sliding window algorithm for a bounded data (such as a local file),
             # we may receive an outdated event whose timestamp is older than timestamp of previously processed event.
-            if float(timestamp) < float(prev_timestamp):
+            if (prev_timestamp is not None) and (float(timestamp) < float(prev_timestamp)):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
                     + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
-- 
2.43.0


From 4ef866fe4226f443a178b0a4a5707044cb9acfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 15/18] fix: outgoing elements are all previous elements that
 are gone, not only the oldest ones

---
 sawatabi/algorithm/abstract_algorithm.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 2454b28..32b8658 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -118,12 +118,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Resolve outgoing elements in this iteration
             def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+                return [p for p in prev_elements if p not in sorted_elements]
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
-- 
2.43.0


From 6e2093be09a1ea0083a009f7936df3207cf0f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:36 +0000
Subject: [PATCH 16/18] fix: from_pyqubo does not negate the coefficients of
 the given PyQUBO object in place

---
 sawatabi/model/logical_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f76765d..47d6a7e 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import collections
 import copy
 import numbers
 import pprint
@@ -478,9 +477,8 @@ class LogicalModel(AbstractModel):
 
             coeff = v
             if isinstance(coeff, pyqubo.Coefficient):
-                assert isinstance(coeff.terms, collections.defaultdict)
-                for placeholder_k, _ in coeff.terms.items():
-                    coeff.terms[placeholder_k] *= -1
+                # Negate a copy: the coefficient belongs to the given PyQUBO object
+                coeff = pyqubo.Coefficient({placeholder_k: -1 * placeholder_v for placeholder_k, placeholder_v in coeff.terms.items()})
             else:
                 coeff *= -1
 
-- 
2.43.0


From 72fd516fb7620a4983bc6edf0dc8d6516ca72b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:06 +0000
Subject: [PATCH 17/18] fix: keep interaction names unique when a merge is
 repeated

---
 sawatabi/model/logical_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 47d6a7e..ddb4866 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -648,14 +648,19 @@ class LogicalModel(AbstractModel):
                 merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
         duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
 
-        # Rename duplicate interaction names by adding suffix of model id
+        # Rename duplicate interaction names by adding suffix of model id (repeated while the name is already in use)
+        used_names = set(merged_interactions_with_duplication["name"])
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
             if name in duplicate_names:
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
                     model_id = id(other)
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                new_name = f"{name} ({model_id})"
+                while new_name in used_names:
+                    new_name = f"{new_name} ({model_id})"
+                used_names.add(new_name)
+                merged_interactions_with_duplication["name"][idx] = new_name
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
-- 
2.43.0


From ad3eda90cb741e2278d953783cfd1abc09e7f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 18/18] fix: an attenuation step with no live interaction no
 longer breaks the stream

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 32b8658..7e044eb 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -160,8 +160,8 @@ class AbstractAlgorithm(BaseMixin):
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
                 model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
                 ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
+                min_ts = min(ref_timestamp, default=0.0)
+                max_ts = max(ref_timestamp, default=0.0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
                     for i, t in enumerate(ref_timestamp):
-- 
2.43.0

