From 19c326f07b85cb0ea4e0964f821921dc4e87cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 01/58] fix: keep Categorical marginal axes aligned with the
 marginal variables

---
 veroku/factors/categorical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..d0d0266 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,8 +278,12 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        # the remaining axes are still in the order of this factor's variables
+        remaining_vars = [v for v in self.var_names if v in vars_to_keep]
+        result_tensor = result_tensor.transpose([remaining_vars.index(v) for v in vars_to_keep])
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 5900fd5d3f3f87fabc4e2e332de6253aa1cd3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 02/58] fix: apply the Categorical cancel 0/0 rule per joint
 assignment

---
 veroku/factors/categorical.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index d0d0266..0b37679 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -360,17 +360,12 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
-
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def cancel_operation(log_tensor_a, log_tensor_b):
+            both_zero = (log_tensor_a == -np.inf) & (log_tensor_b == -np.inf)
+            return log_tensor_a - np.where(both_zero, 0.0, log_tensor_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, cancel_operation
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From b910936d197aa52307b6643af14059d0111aa368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/58] fix: SparseCategorical.reduce on default-valued
 evidence

---
 veroku/factors/sparse_categorical.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..9ee56a7 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,20 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        # all of the assignments that are consistent with the evidence could be default valued (and therefore absent)
+        lp_table = nested_table.get(tuple(values), {})
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(
+            var_names=var_names,
+            log_probs_table=lp_table,
+            cardinalities=cards,
+            default_log_prob=self.default_log_prob,
+        )
 
         return resulting_factor
 
-- 
2.43.0


From 9478600bcd496b7b7def12a50fbae6b504d41229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 04/58] fix: SparseCategorical.potential variable order and
 default values

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 9ee56a7..da270d4 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -836,9 +836,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        obs_dict = dict(zip(vrs, assignment))
+        var_names_order_assignments = tuple([obs_dict[v] for v in self.var_names])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From 3197052621b8ebbb0825dd50d1c529e23115b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 05/58] fix: keep the default value when reordering a
 SparseCategorical

---
 veroku/factors/sparse_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index da270d4..00e60c2 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -927,6 +927,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 7b62e9a29c9db63339e42dc344942b3c9bbc5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 06/58] fix: SparseCategorical multiply and cancel with
 non-zero default values

---
 veroku/factors/sparse_categorical.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 00e60c2..a783227 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -584,6 +584,18 @@ class SparseCategorical(Factor):
                 error_msg = f"Error: inconsistent variable cardinalities: {factor.var_cards}, {self.var_cards}"
                 assert self.var_cards[var] == factor.var_cards[var], error_msg
 
+    def _get_zero_absorbing_rules(self):
+        """
+        Get the default rules for operations where a zero probability in either factor always results in a zero. This
+        only guarantees a default result if the default probability is zero.
+
+        :return: The default rules (see _apply_binary_operator).
+        :rtype: str
+        """
+        if self.default_log_prob == -np.inf:
+            return "any"
+        return "none"
+
     def multiply(self, factor):
         """
         Multiply this factor with another factor and return the result.
@@ -595,7 +607,7 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        return self._apply_binary_operator(factor, operator.add, default_rules=self._get_zero_absorbing_rules())
 
     def cancel(self, factor):
         """
@@ -612,7 +624,7 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        return self._apply_binary_operator(factor, special_divide, default_rules=self._get_zero_absorbing_rules())
 
     def divide(self, factor):
         """
-- 
2.43.0


From afc9c72b40f9aaedf107be1f7f695188b4d1116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 07/58] fix: include default values when marginalizing a
 SparseCategorical

---
 veroku/factors/sparse_categorical.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a783227..4f49e3d 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -523,9 +523,13 @@ class SparseCategorical(Factor):
             old_assign_probs=self.log_probs_table,
         )
         result_table = dict()
+        num_summed_assignments = int(np.prod([self.var_cards[v] for v in vars_to_sum_out]))
         for l1_assign, log_probs_table in nested_table.items():
-            prob = special.logsumexp(list(log_probs_table.values()))
-            result_table[l1_assign] = prob
+            log_probs = list(log_probs_table.values())
+            num_default_assignments = num_summed_assignments - len(log_probs)
+            if num_default_assignments > 0:
+                log_probs.append(self.default_log_prob + np.log(num_default_assignments))
+            result_table[l1_assign] = special.logsumexp(log_probs)
 
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vars_to_sum_out:
@@ -534,7 +538,10 @@ class SparseCategorical(Factor):
         cardinalities = [self.var_cards[v] for v in vars_to_keep]
 
         resulting_factor = SparseCategorical(
-            var_names=vars_to_keep, log_probs_table=result_table, cardinalities=cardinalities
+            var_names=vars_to_keep,
+            log_probs_table=result_table,
+            cardinalities=cardinalities,
+            default_log_prob=self.default_log_prob + np.log(num_summed_assignments),
         )
 
         return resulting_factor
-- 
2.43.0


From dd2430490e636406f5277b6a2bd2a78fc0f4c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 08/58] fix: include default values in the SparseCategorical
 weight and KL-divergence

---
 veroku/factors/sparse_categorical.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 4f49e3d..e4d2874 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -757,11 +757,26 @@ class SparseCategorical(Factor):
         """
 
         factor_copy = self.copy()
-        logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
+        logz = self._get_log_weight()
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
+        if factor_copy.default_log_prob != -np.inf:
+            factor_copy.default_log_prob -= logz
         return factor_copy
 
+    def _get_log_weight(self):
+        """
+        Get the log of the sum of the (explicit and default) probabilities of all assignments.
+
+        :return: The log weight.
+        :rtype: float
+        """
+        log_probs = list(self.log_probs_table.values())
+        num_default_assignments = int(np.prod(self.cardinalities)) - len(log_probs)
+        if num_default_assignments > 0:
+            log_probs.append(self.default_log_prob + np.log(num_default_assignments))
+        return special.logsumexp(log_probs)
+
     def _is_dense(self):
         """
         Check if all factor assignments have non-default values.
@@ -819,6 +834,10 @@ class SparseCategorical(Factor):
         log_q = factor
         if normalize_factor:
             log_q = factor.normalize()
+        if log_p.default_log_prob != log_q.default_log_prob:
+            # make all the default values explicit
+            log_p, log_q = _make_dense(log_p), _make_dense(log_q)
+            log_p.default_log_prob = log_q.default_log_prob = -np.inf
 
         kld = self._raw_kld(log_p, log_q)
 
@@ -844,6 +863,8 @@ class SparseCategorical(Factor):
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
+        if uniform_factor.default_log_prob != -np.inf:
+            uniform_factor.default_log_prob = uniform_log_prob
         kld = self.kl_divergence(uniform_factor, normalize_factor=False)
         return kld
 
@@ -873,7 +894,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = self._get_log_weight()
         weight_ = np.exp(log_weight)
         return weight_
 
-- 
2.43.0


From 43a64358135be3ce9ff29c6edfa54d0971e1d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 09/58] fix: consider default values in
 SparseCategorical.argmax

---
 veroku/factors/sparse_categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index e4d2874..a878e28 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -651,7 +651,10 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        log_probs_table = self.log_probs_table
+        if not log_probs_table or self.default_log_prob != -np.inf:
+            log_probs_table = _make_dense(self).log_probs_table
+        return max(log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
-- 
2.43.0


From e2749a4dc43b801dbe9929a00f54cbf5c0003bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 10/58] fix: do not let the unused default value of a sparse
 quotient be nan

---
 veroku/factors/sparse_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a878e28..bb207ca 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -743,6 +743,9 @@ class SparseCategorical(Factor):
 
         result_cardinalities = [result_var_cards[v] for v in result_var_names]
         result_default_log_prob = operator_function(default_log_prob, default_log_prob)
+        if np.isnan(result_default_log_prob):
+            # an undefined default (0/0) is only possible here if it does not apply to any assignment
+            result_default_log_prob = default_log_prob
         resulting_factor = SparseCategorical(
             var_names=result_var_names,
             log_probs_table=flattened_result_table,
-- 
2.43.0


From 00bef9cfdb026e4cacdd5cab191b194d5a150715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 11/58] fix: do not reorder the argument of Gaussian.equals in
 place

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..023bb94 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
-- 
2.43.0


From 9b48bbd82c062dc801bbd29ef5a0b3385795abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 12/58] fix: align the variable orders in
 Gaussian.kl_divergence

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 023bb94..5d8184a 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -742,6 +742,9 @@ class Gaussian(Factor):
         factor_ = factor
         if normalize_factor:
             factor_ = factor.normalize()
+        if factor_.var_names != normalized_self.var_names:
+            factor_ = factor_.copy()
+            factor_._reorder_parameters(normalized_self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From 4bcfad1e1ba4e467d4b0524a934aba5046c613c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 13/58] fix: Gaussian.reduce with all variables observed

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 5d8184a..c678d37 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -659,8 +659,8 @@ class Gaussian(Factor):
         """
         prec = self.get_prec()
         h_vec = self.get_h()
-        prec_reduced = 0
-        h_reduced = 0
+        prec_reduced = np.zeros([0, 0])
+        h_reduced = np.zeros([0, 1])
         if unobserved_indices:
             prec_xx = prec[np.ix_(unobserved_indices, unobserved_indices)]
             prec_reduced = prec_xx.copy()
-- 
2.43.0


From bb8072c979e4c17f6601c0b24722f37009e7cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 14/58] fix: linear Gaussians with non-square transforms

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c678d37..dce385e 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,7 +123,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-- 
2.43.0


From 1982d4546377a61bd83078da0f118c621386ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 15/58] fix: keep the normalisation constant in linear Gaussian
 CPD templates

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index dce385e..a0e7748 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -127,7 +127,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From baaa29d9848d113910ec62bc4c6a341250577db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 16/58] fix: comparing a Gaussian with a vacuous Gaussian

---
 veroku/factors/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index a0e7748..ec7d717 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -312,6 +312,8 @@ class Gaussian(Factor):
             gaussian_copy._reorder_parameters(self._var_names)
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
+        if gaussian_copy._is_vacuous != self._is_vacuous:
+            return False
         if self.canform:
             if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
-- 
2.43.0


From 3a75be588008ac84b8e669a9f001fa493db5ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 17/58] fix: do not mark all factors made from Gaussian
 templates as vacuous

---
 veroku/factors/gaussian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index ec7d717..0eb7315 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1084,7 +1084,4 @@ class GaussianTemplate(FactorTemplate):
         if format_dict is not None:
             assert var_names is None
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
-        # TODO: remove this and find better solution
-        g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
-        return g_val
+        return Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-- 
2.43.0


From 344dfa26cfbb96eec973fe42acbe9a15c67356f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 18/58] fix: get_posterior_joint when not all message paths
 have been used

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From b5de519c290fc457d847a1dec08059995ab93286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 19/58] fix: repeated processing of single cluster graphs with
 special evidence

---
 veroku/cluster_graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..2562502 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -431,11 +431,13 @@ class ClusterGraph:
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
             if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
-                self._clusters[0]._factor = self._clusters[0]._factor.reduce(
-                    vrs=evidence_vrs, values=evidence_values
+                evidence_vrs, evidence_values = get_subset_evidence(
+                    self.special_evidence, self._clusters[0].var_names
                 )
+                if len(evidence_vrs) > 0:
+                    self._clusters[0]._factor = self._clusters[0]._factor.reduce(
+                        vrs=evidence_vrs, values=evidence_values
+                    )
             return
 
         # TODO: see if the definition of max_iter can be improved
-- 
2.43.0


From c28532ce220f5da15053d322327c171a3085767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 20/58] fix: support the / operator for factors

---
 veroku/factors/_factor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..fbc7f1e 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -212,6 +212,8 @@ class Factor:
         """
         return self.divide(other)
 
+    __truediv__ = __div__
+
     def __eq__(self, other):
         """
         Compare this factor to another factor.
-- 
2.43.0


From 2f6c9852f6518534fe3e1cffef0a660089320e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 21/58] fix: update the scope of FactorizedFactor products and
 quotients

---
 veroku/factors/experimental/factorised_factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..98aa38c 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -78,7 +78,8 @@ class FactorizedFactor(Factor):
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
             factorised_factor_copy.factors.append(factor)
-        return factorised_factor_copy
+        # reconstruct, to copy the absorbed factor and update the scope
+        return FactorizedFactor(factorised_factor_copy.factors)
 
     def divide(self, factor):
         """
@@ -95,7 +96,7 @@ class FactorizedFactor(Factor):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
                     del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(factorised_factor_copy.factors)
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From 6e2525648445713c6e5211bb9ffca8bb4609ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 22/58] fix: merge all indirectly connected factors when
 marginalizing a FactorizedFactor

---
 .../factors/experimental/factorised_factor.py | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 98aa38c..2168a4f 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -254,25 +254,23 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
+        # each group is a list containing a set of variables (from vrs_set) and the product of the factors that are
+        # (directly or indirectly) connected through these variables.
+        groups = []
         for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
-        merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
-        self.factors = merged_factors
+            factor_vars = set(factor.var_names).intersection(vrs_set)
+            connected_groups = [group for group in groups if group[0].intersection(factor_vars)]
+            if not connected_groups:
+                groups.append([factor_vars, factor])
+                continue
+            merged_group = connected_groups[0]
+            for group in connected_groups[1:]:
+                merged_group[0] |= group[0]
+                merged_group[1] = merged_group[1].multiply(group[1])
+            groups = [group for group in groups if not any(group is g for g in connected_groups[1:])]
+            merged_group[0] |= factor_vars
+            merged_group[1] = merged_group[1].multiply(factor)
+        self.factors = [group[1] for group in groups]
 
     def reduce(self, vrs, values):
         """
-- 
2.43.0


From d1a4ada3b4c990604c14e89688d68c4bb424f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 23/58] fix: FactorizedFactor.normalize

---
 .../factors/experimental/factorised_factor.py  | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 2168a4f..8493831 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -159,8 +159,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -231,18 +230,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        merged_factor = self.copy()
+        merged_factor._merge_factors_with_shared_scope(set(self.var_names))
+        return merged_factor
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
-- 
2.43.0


From a8353e9d99a56d10a54187c54d4f043f4799f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 24/58] fix: FactorizedFactor.reduce when evidence covers
 complete factors

---
 veroku/factors/experimental/factorised_factor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8493831..ccb568c 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -275,15 +275,16 @@ class FactorizedFactor(Factor):
         """
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
+        all_vars_observed = set(self.var_names) <= set(vrs)
         additional_log_weight = 0.0
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
-            elif len(set(vrs).intersection(set(factor_var_names))) > 0:
-                subset_vrs, subset_values = get_subset_evidence(
-                    all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
-                )
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor_var_names
+            )
+            if set(factor_var_names) <= set(vrs) and not all_vars_observed:
+                additional_log_weight += factor.log_potential(x_val=subset_values, vrs=subset_vrs)
+            elif len(subset_vrs) > 0:
                 reduced_factor = factor.reduce(subset_vrs, subset_values)
                 reduced_factors.append(reduced_factor)
             else:
-- 
2.43.0


From e003f79935b29fb27bf48e6bb491a2a36d78282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 25/58] fix: KL-divergence between FactorizedFactors

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index ccb568c..ffcf6ee 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -141,7 +141,7 @@ class FactorizedFactor(Factor):
         :rtype: float
         """
         # TODO: Make this more efficient.
-        return self.joint_distribution.kl_divergence(factor)
+        return self.joint_distribution.kl_divergence(factor.joint_distribution)
 
     @property
     def num_factors(self):
-- 
2.43.0


From 8c48106912d57faa8cd347de3547b989c8f73195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 26/58] fix: FactorizedFactor.show

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index ffcf6ee..a8508d1 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -357,6 +357,6 @@ class FactorizedFactor(Factor):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From 28dd4ebc15f083c6bf515a3f2066bc5f099afded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 27/58] fix: compare FactorizedFactors by the distributions
 that they represent

---
 veroku/factors/experimental/factorised_factor.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index a8508d1..1f51619 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -337,21 +337,10 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
-        if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
-            return True
-        return False
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def show(self):
         """
-- 
2.43.0


From 613882ca7e3e0bd56168e283d11e71f9ebd6ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 28/58] fix: compare GaussianMixtures irrespective of the
 component order

---
 veroku/factors/experimental/gaussian_mixture.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..9446592 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,11 +104,14 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
+        unmatched_components = list(factor.components)
+        for component in self.components:
             found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
+            for j, other_component in enumerate(unmatched_components):
+                if component.equals(other_component, rtol=rtol, atol=atol):
                     found_corresponding_factor = True
+                    del unmatched_components[j]
+                    break
             if not found_corresponding_factor:
                 return False
         return True
-- 
2.43.0


From 3d1c1b4d4e1050b4fda751bbf1c2a44c51a9937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 29/58] fix: keep the cancel method in copies and results of
 GaussianMixture operations

---
 veroku/factors/experimental/gaussian_mixture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 9446592..52cfc64 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -137,7 +137,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
@@ -158,7 +158,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -187,7 +187,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -203,7 +203,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -219,7 +219,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -340,7 +340,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
-- 
2.43.0


From 1be5d646aacfe79d27c2bc8a70309d297999025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 30/58] fix: one dimensional starting points in the
 GaussianMixture optimisations

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 52cfc64..6b11dd8 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -480,7 +480,7 @@ class GaussianMixture(Factor):
 
         for comp in self.components:
             res = minimize(neg_gmm_log_pot,
-                           x0=comp.get_mean(),
+                           x0=comp.get_mean().ravel(),
                            method=self.optimization_alg,
                            options={"disp": False})
             x_local_max = res.x
@@ -510,7 +510,7 @@ class GaussianMixture(Factor):
             return self.potential(x_vals)
 
         for comp in self.components:
-            res = minimize(gmm_pot, x0=comp.get_mean(), method="BFGS", options={"disp": False})
+            res = minimize(gmm_pot, x0=comp.get_mean().ravel(), method="BFGS", options={"disp": False})
             x_local_min = res.x
             if res.success:
                 success = True
-- 
2.43.0


From 79604a8fb2a8c8c000d9a3c2b77fe77444bf18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 31/58] fix: NonLinearGaussian with all conditioning variables
 observed

---
 veroku/factors/experimental/nonlinear_gaussian.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..2051a9b 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -254,6 +254,8 @@ class NonLinearGaussian(Factor):
 
         # If we are still here, there we can calculate the transformation.
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        conditioning_factor_vars = []
+        conditioning_factor_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
@@ -265,16 +267,18 @@ class NonLinearGaussian(Factor):
                 )
 
             conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            conditioning_factor_vars = conditioning_factor.var_names
+            conditioning_factor_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
             tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
             extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor_vars
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_factor_vars
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +293,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = conditioning_factor_vars + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_factor_log_weight
         self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                             mean=joint_mean,
                                             log_weight=joint_log_weight,
-- 
2.43.0


From 32c56ed8860039116c9778c9b663659738dc7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 32/58] fix: variable order of the NonLinearGaussian transform
 input

---
 .../factors/experimental/nonlinear_gaussian.py  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 2051a9b..7b6dfbc 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -280,20 +280,21 @@ class NonLinearGaussian(Factor):
             extended_sigma_points_array = conditioning_factor_sigma_points_array
             extended_sigma_point_vars = conditioning_factor_vars
 
-        # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
-        # in the correct place in the transformation. In the past, we have simply done this by standardising
-        # on the variable indices in different place, but this is probably not very safe.
+        # the transform always receives the variables in the order of the conditioning variables
+        extended_sigma_points_array = extended_sigma_points_array[
+            [extended_sigma_point_vars.index(var) for var in self.conditioning_vars], :
+        ]
         joint_cov, joint_mean = sigma_points_array_to_joint_params(sigma_points_array=extended_sigma_points_array,
                                                                    transform=self.transform,
-                                                                   var_names=extended_sigma_point_vars)
+                                                                   var_names=self.conditioning_vars.copy())
         if (joint_mean.shape[0] != len(self.var_names)) or (joint_cov.shape[0] != len(self.var_names)):
             raise AssertionError("Transform resulted in incorrect number of variables.")
 
         # remove the observed vars again after transformation
-        nov = len(conditioning_observed_vars)  # number of observed vars
-        joint_cov = joint_cov[nov:, nov:]
-        joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor_vars + self.conditional_vars
+        unobserved_indices = [i for i, var in enumerate(self.var_names) if var not in conditioning_observed_vars]
+        joint_cov = joint_cov[np.ix_(unobserved_indices, unobserved_indices)]
+        joint_mean = joint_mean[unobserved_indices, :]
+        joint_var_names = [self.var_names[i] for i in unobserved_indices]
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
-- 
2.43.0


From 7e31070aac9462e03e74f708c433f0bb64352e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 33/58] fix: NonLinearGaussian.equals on out of date joint
 distributions

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 7b6dfbc..a4435ab 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,7 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From 0da9c61e0a2126124d9977ad7b250d201b518aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 34/58] fix: NonLinearGaussianMixture copy, multiply and
 marginalize

---
 .../factors/experimental/nonlinear_gaussian.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index a4435ab..b33920c 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -535,7 +535,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -555,7 +555,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
@@ -569,7 +569,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -589,7 +589,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -603,7 +603,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -612,12 +612,12 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
-        new_nlgs = []
+        gaussian_marginals = []
         for nlg in self.nlgs:
-            new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+            gaussian_marginals.append(nlg.marginalize(vrs, keep))
+        return GaussianMixture(gaussian_marginals)
 
     def sample(self, num_samples):
         """
-- 
2.43.0


From 66d92f219bc26dc65ff7dd3660cd8621807c40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 35/58] fix: categorical factors with different cardinalities
 are not equal

---
 veroku/factors/categorical.py        | 2 ++
 veroku/factors/sparse_categorical.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0b37679..7b28574 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -199,6 +199,8 @@ class Categorical(Factor):
         if set(self.var_names) != set(factor.var_names):
             return False
         factor_copy = factor.reorder(self.var_names)
+        if self.log_probs_tensor.shape != factor_copy.log_probs_tensor.shape:
+            return False
         if not np.allclose(self.log_probs_tensor, factor_copy.log_probs_tensor, rtol=rtol, atol=atol):
             return False
         return True
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index bb207ca..069b97e 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -467,7 +467,7 @@ class SparseCategorical(Factor):
         if not isinstance(factor_, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
 
-        if set(self.var_names) != set(factor_.var_names):
+        if self.var_cards != factor_.var_cards:
             return False
 
         # var sets are the same
-- 
2.43.0


From 2f3ae322978c90032af1155adb2fa5acdf0a2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 36/58] fix: Categorical quotients with variables that are only
 in the divisor

---
 veroku/factors/categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 7b28574..22c9dbf 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -371,8 +371,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
-                                  result_vars]
+        all_vars_assignment_names_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [all_vars_assignment_names_dict[var] for var in result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
 
@@ -393,8 +393,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
-                                  result_vars]
+        all_vars_assignment_names_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [all_vars_assignment_names_dict[var] for var in result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
 
-- 
2.43.0


From 508203651b7bdf3c32445958cbf13af3c3dc6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 37/58] fix: do not share the variable and cardinality lists
 passed to factors

---
 veroku/factors/_factor.py            | 2 +-
 veroku/factors/categorical.py        | 2 +-
 veroku/factors/sparse_categorical.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index fbc7f1e..d5422a3 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,7 +22,7 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
+        self._var_names = copy.copy(var_names)
         if not isinstance(var_names, list):
             self._var_names = [var_names]
 
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 22c9dbf..3f13b6d 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 069b97e..7f0b49e 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -421,7 +421,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 235ed030da5d625ca82950527d60baf09ad8525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 38/58] fix: animation of graphs with special characters in the
 variable names

---
 veroku/_cg_helpers/_animation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..7a4769b 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -110,14 +110,15 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     """
 
     edge_found = False
+    node_a_pattern, node_b_pattern = re.escape(node_a_name), re.escape(node_b_name)
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                pattern = f'(\\t?"?{node_a_pattern}"?\s--\s"?{node_b_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(\\t?"?{node_b_pattern}"?\s--\s"?{node_a_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -140,7 +141,7 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0


From a897bb866e1adf242ce52f67f94430d1f48b9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 39/58] fix: compare default values of SparseCategorical
 factors within the tolerance

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 7f0b49e..61e9935 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -443,8 +443,8 @@ class SparseCategorical(Factor):
         for assign, factor_log_prob in self.log_probs_table.items():
 
             if assign not in factor.log_probs_table:
-                # TODO: make this `not is_close` and simplify this method
-                if factor_log_prob != factor.default_log_prob:
+                # TODO: simplify this method
+                if not np.isclose(factor.default_log_prob, factor_log_prob, rtol=rtol, atol=atol):
                     return False
             else:
                 self_log_prob = factor.log_probs_table[assign]
@@ -485,7 +485,7 @@ class SparseCategorical(Factor):
 
         # If all possible assignments have not been checked - check that the default values are the same
         if not self._is_dense() and not factor._is_dense():
-            if self.default_log_prob != factor.default_log_prob:
+            if not np.isclose(self.default_log_prob, factor.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
         return True
-- 
2.43.0


From f4f0b5be572dbc5bbb22b37aa90b9acb2cc2c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 40/58] fix: binary operations of sparse factors without common
 variables

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 61e9935..8f48125 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -62,7 +62,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = dict(zip(dense_assingments, [default_value] * int(np.product(cardinalities))))
     return dense_default_dict
 
 
-- 
2.43.0


From a990c6496cd0d91d3448dc4e9efe9e813c06ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 41/58] fix: do not share the special evidence dictionary with
 the caller of ClusterGraph

---
 veroku/cluster_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 2562502..6ea4a73 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -139,7 +139,7 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if special_evidence is None:
             special_evidence = dict()
-        self.special_evidence = special_evidence
+        self.special_evidence = special_evidence.copy()
         all_evidence_vars = set(self.special_evidence.keys())
         if evidence is not None:
             evidence_vars = set(evidence.keys())
-- 
2.43.0


From 4fe982aef29a6979fd35e94b41afa3b536b00ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 42/58] fix: Gaussian.equals with a factor that has a singular
 precision matrix

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 0eb7315..b776d72 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -318,6 +318,9 @@ class Gaussian(Factor):
             if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
+        if not gaussian_copy._cov_exists():
+            # self has a covariance matrix, but the other factor does not
+            return False
         self._update_covform()
         if self.covform:
             if not self._covform_equals(gaussian_copy, rtol, atol):
-- 
2.43.0


From 46ea06d7c6fc1961f6c92e5d462e80b089d813ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 43/58] fix: NonLinearGaussian with a conditioning factor that
 became vacuous

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index b33920c..fba3d0a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -243,7 +243,7 @@ class NonLinearGaussian(Factor):
 
         # Initial feasibility check
         conditioning_factor_var_names = []
-        if self.conditioning_factor is not None:
+        if self.conditioning_factor is not None and not self.conditioning_factor._is_vacuous:
             conditioning_factor_var_names = self.conditioning_factor.var_names
         vars_obs_vars_union = set(conditioning_factor_var_names).union(set(conditioning_observed_vars))
         if vars_obs_vars_union != set(self.conditioning_vars):
-- 
2.43.0


From e098af89fe3d3f549cb518c6d8e56a6e19c37a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 44/58] fix: animate exactly the nodes and edges with the given
 names

---
 veroku/_cg_helpers/_animation.py | 48 ++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 7a4769b..75516c2 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -5,6 +5,7 @@ A module for animating graphviz graphs.
 import re
 
 # Third-party imports
+import graphviz
 from PIL import Image as PIL_Image
 
 # pylint: disable=anomalous-backslash-in-string
@@ -99,6 +100,25 @@ def contains_non_overlapping_substrings(substring_a, substring_b, main_string):
     return result
 
 
+def _starts_with_element(element_string, *node_names):
+    """
+    Check if a line in the body of a graphviz object defines the given node (one name) or edge (two names).
+
+    :param str element_string: The line in the graph body.
+    :param node_names: The name of the node or the names of the nodes that the edge connects.
+    :return: The result of the check.
+    :rtype: bool
+    """
+    graph = graphviz.Graph()
+    if len(node_names) == 1:
+        graph.node(*node_names)
+    else:
+        graph.edge(*node_names)
+    element = graph.body[0].strip()
+    element_string = element_string.strip()
+    return element_string == element or element_string.startswith(element + " [")
+
+
 def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     """
     Change the edge color of the edge between two nodes in a graphviz object.
@@ -110,19 +130,12 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     """
 
     edge_found = False
-    node_a_pattern, node_b_pattern = re.escape(node_a_name), re.escape(node_b_name)
     for i, string_i in enumerate(graph.body):
-        if "--" in string_i:
-            if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_pattern}"?\s--\s"?{node_b_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
-                new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
-                # TODO: improve this (it's a bit hacky)
-                if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_pattern}"?\s--\s"?{node_a_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
-                    new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
-
-                graph.body[i] = new_string_i
-                edge_found = True
+        if _starts_with_element(string_i, node_a_name, node_b_name) or _starts_with_element(
+            string_i, node_b_name, node_a_name
+        ):
+            graph.body[i] = re.sub("(\[.*color=)([\S]*\s)(.*)", f"\g<1>{new_color} \g<3>", string_i)
+            edge_found = True
     if not edge_found:
         raise ValueError(f"no edge between node {node_a_name} and node {node_b_name} in graph.")
 
@@ -138,12 +151,11 @@ def change_graph_node_color(graph, node_name, new_color):
     """
     node_found = False
     for i, element_string in enumerate(graph.body):
-        if "--" not in element_string:  # not edge
-            if node_name in element_string:
-                graph.body[i] = re.sub(
-                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
-                )
-                node_found = True
+        if _starts_with_element(element_string, node_name):
+            graph.body[i] = re.sub(
+                "(\[.*fillcolor=)([\S]*\s)(.*)", f"\g<1>{new_color} \g<3>", element_string
+            )
+            node_found = True
     if not node_found:
         raise ValueError(f"cannot change colour of not existing node: no node {node_name} in graph")
 
-- 
2.43.0


From 1c2451c6ab3e122815ff21d7acf2909d59806487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 45/58] fix: divergence of Gaussians with information about
 only some directions

---
 veroku/factors/gaussian.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index b776d72..b25e95d 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -376,6 +376,17 @@ class Gaussian(Factor):
             return False
         return True
 
+    def _is_normalizable(self):
+        """
+        Check if the Gaussian can be normalized. This is not the case if it has information about only some directions
+        (for example a message about a function of the variables).
+
+        :return: The result of the check.
+        :rtype: bool
+        """
+        prec = self.get_prec()
+        return np.linalg.matrix_rank(prec) == self.dim and _factor_utils.is_pos_def(prec)
+
     def get_cov(self):
         """
         Get the covariance parameter.
@@ -742,6 +753,8 @@ class Gaussian(Factor):
 
         if self.equals(factor):
             return 0.0
+        if not (self._is_normalizable() and factor._is_normalizable()):
+            return np.inf
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
         factor_ = factor
-- 
2.43.0


From 384901365a8dedb8e1d55b708ccfc3173350b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 46/58] fix: SparseCategorical.reorder drops the variables that
 are not in the new order

---
 veroku/factors/sparse_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8f48125..a6ca47a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -962,6 +962,8 @@ class SparseCategorical(Factor):
             1 0  pa1b0            1 0  pa0b1
             1 1  pa1b1            1 1  pa1b1
         """
+        if set(new_var_names_order) != set(self.var_names):
+            raise ValueError("The new_var_names_order set must be the same as the factor variables.")
         new_order_indices = [self.var_names.index(var) for var in new_var_names_order]
         new_log_probs_table = dict()
         for assignment, value in self.log_probs_table.items():
-- 
2.43.0


From 1714b969ca54da464e264e101187b152c8bcada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 47/58] fix: SparseCategorical.kl_divergence between factors
 with different variables

---
 veroku/factors/sparse_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a6ca47a..b70f34b 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -836,6 +836,8 @@ class SparseCategorical(Factor):
         :return: The Kullback-Leibler divergence
         :rtype: float
         """
+        if set(self.var_names) != set(factor.var_names):
+            raise ValueError("The KL-divergence is only defined between factors with the same variables.")
         log_p = self.normalize()
         log_q = factor
         if normalize_factor:
-- 
2.43.0


From 40fdd600f367d5a7bdfc6dcc4e5142b125f529bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 48/58] fix: Categorical.plot with assignment names that are
 not strings

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 3f13b6d..0c4b8b4 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -588,7 +588,7 @@ class Categorical(Factor):
                 if isinstance(elem, float):
                     processed_assignment_value_name = f"{elem:.2f}"
                 else:
-                    processed_assignment_value_name = elem
+                    processed_assignment_value_name = str(elem)
                 processed_assignment_value_names.append(processed_assignment_value_name)
             x_label = ", ".join(processed_assignment_value_names)
             return x_label
-- 
2.43.0


From e7254ebf44221ccf3307b9fcf9f0fdd97fb21b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 49/58] fix: GaussianMixture.plot of the log potential adds the
 logarithms of the components

---
 .../factors/experimental/gaussian_mixture.py   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 6b11dd8..7d50f6b 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -413,15 +413,17 @@ class GaussianMixture(Factor):
                 x_upper = xlim[1]
             num_points = 200
             x_series = np.linspace(x_lower, x_upper, num_points)
-            total_potx = np.zeros(num_points)
-            for comp in self.components:
-                if log:
-                    potx = np.array([comp.log_potential(xi) for xi in x_series])
-                else:
-                    potx = np.array([comp.potential(xi) for xi in x_series])
-                if show_individual_components:
+            if show_individual_components:
+                for comp in self.components:
+                    if log:
+                        potx = np.array([comp.log_potential(xi) for xi in x_series])
+                    else:
+                        potx = np.array([comp.potential(xi) for xi in x_series])
                     plt.plot(x_series, potx)
-                total_potx += potx
+            if log:
+                total_potx = np.array([self.log_potential(xi) for xi in x_series])
+            else:
+                total_potx = np.array([self.potential(xi) for xi in x_series])
             plt.plot(x_series, total_potx)
         elif self.dim == 2:
             self._plot_2d(log=log, xlim=xlim, ylim=ylim)
-- 
2.43.0


From 29b38c427c8535a5eeee4df211c6ffcc51c7070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 50/58] fix: plot_message_convergence when no distance is
 finite and positive

---
 veroku/cluster_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 6ea4a73..72f7bba 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -292,8 +292,8 @@ class ClusterGraph:
 
         iterations = np.array(list(range(num_iterations))) / 2  # divide by 2 to correct for tile and flatten
         non_inf_max_distances = [d for d in mp_max_dists if d != np.inf]
-        max_non_inf = max(non_inf_max_distances)
-        new_inf_value = max_non_inf * 1.5
+        max_non_inf = max(non_inf_max_distances, default=0.0)
+        new_inf_value = max_non_inf * 1.5 if max_non_inf > 0.0 else 1.0
         max_distances_replaces_infs = np.array([v if v != np.inf else new_inf_value for v in mp_max_dists])
         inf_values = np.ma.masked_where(
             max_distances_replaces_infs != new_inf_value, max_distances_replaces_infs
-- 
2.43.0


From 413776fbe83010db1d419e6d896eec55de8ce42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 51/58] fix: remove_duplicate_values compares points of several
 dimensions

---
 veroku/factors/_factor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 7b04800..e58037d 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -67,7 +67,7 @@ def remove_duplicate_values(array_like, tol=0.0):
     for element in array_like:
         element_is_duplicate = False
         for uval in unique_values:
-            if abs(uval - element) <= tol:
+            if np.all(np.abs(uval - element) <= tol):
                 element_is_duplicate = True
         if not element_is_duplicate:
             unique_values.append(element)
-- 
2.43.0


From 890e0ac1804ec5b8cd8a5a3a9b4a90b2b162d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 52/58] fix: approximate mixture quotient keeps the sign of g

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 7d50f6b..7f62879 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -572,7 +572,7 @@ class GaussianMixture(Factor):
         h_vec = prec.dot(mean)
         ut_k_u = ((mean.transpose()).dot(prec)).dot(mean)
         log_det_term = cmath.log(np.linalg.det(2.0 * np.pi * cov))
-        g_val = abs(log_weight - 0.5 * ut_k_u - 0.5 * log_det_term)
+        g_val = log_weight - 0.5 * ut_k_u - 0.5 * log_det_term
         return prec.real, h_vec.real, g_val.real
 
     @staticmethod
-- 
2.43.0


From fd5d00bde121dc2c2922c801e6731908c29767d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 53/58] fix: approximate mixture quotients keep the cancel
 method

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 7f62879..ee5fbf0 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -652,7 +652,7 @@ class GaussianMixture(Factor):
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-        return GaussianMixture(resulting_gaussian_components)
+        return GaussianMixture(resulting_gaussian_components, cancel_method=gaussian_mixture_a.cancel_method)
 
     @staticmethod
     def _gm_division_m2(gma, gmb):
@@ -693,7 +693,7 @@ class GaussianMixture(Factor):
             gaussian_approx = inverse_gaussian_approx._invert()
             resulting_gaussian_components.append(gaussian_approx)
         print("num pos def = ", count, "/", len(gma.components))
-        resulting_gm = GaussianMixture(resulting_gaussian_components)
+        resulting_gm = GaussianMixture(resulting_gaussian_components, cancel_method=gma.cancel_method)
         return resulting_gm
 
     def _get_limits_for_2d_plot(self):
-- 
2.43.0


From d9991bc6e9b408528a308d7ad8d2854813aba089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 54/58] fix: modes of a mixture quotient when the orders of
 variables differ

---
 veroku/factors/experimental/gaussian_mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index ee5fbf0..eddb252 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -591,6 +591,7 @@ class GaussianMixture(Factor):
             Then return Gb1/Ga1 + Gb1/Ga2 + Gb2/Ga1 + Gb2/Ga2
         """
         minimum_locations = []
+        var_names = gaussian_mixture_a.var_names
         for g_a in gaussian_mixture_a.components:
             inverse_components = []
             inverse_gaussian_mixtures = []
@@ -600,13 +601,13 @@ class GaussianMixture(Factor):
             inverse_gaussian_mixtures.append(inverse_gaussian_mixture)
 
             minimum_loc = inverse_gaussian_mixture._argmin()
-            minimum_locations.append(minimum_loc)
+            minimum_locations.append([minimum_loc[inverse_gaussian_mixture.var_names.index(v)] for v in var_names])
 
         def neg_gm_log_quotient_potential(x_val):
             """
             Get the negative of the log value of the Gaussian mixture quotient (gma/gmb)
             """
-            potential = -1.0 * (gaussian_mixture_a.log_potential(x_val) - gaussian_mixture_b.log_potential(x_val))
+            potential = gaussian_mixture_b.log_potential(x_val, var_names) - gaussian_mixture_a.log_potential(x_val)
             return potential
 
         mode_locations = []
-- 
2.43.0


From f99684535ea78648604897b18b9624a4f41e12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 55/58] fix: components of a mixture quotient from its own
 curvature and peak value

---
 veroku/factors/experimental/gaussian_mixture.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index eddb252..ddc2421 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -637,18 +637,22 @@ class GaussianMixture(Factor):
         """
 
         resulting_gaussian_components = []
-        inverse_gaussian_mixtures, unique_mode_locations = GaussianMixture._get_inverse_gaussians(
-            gaussian_mixture_a, gaussian_mixture_b
-        )
-        inv_gm = GaussianMixture(inverse_gaussian_mixtures)
+        _, unique_mode_locations = GaussianMixture._get_inverse_gaussians(gaussian_mixture_a, gaussian_mixture_b)
+        var_names = gaussian_mixture_a.var_names
+
+        def neg_log_quotient(x_val):
+            """
+            Get the negative of the log value of the Gaussian mixture quotient (gma/gmb)
+            """
+            return gaussian_mixture_b.log_potential(x_val, var_names) - gaussian_mixture_a.log_potential(x_val)
 
         for mode_location in unique_mode_locations:
-            prec_i = nd.Hessian(inv_gm.log_potential)(mode_location)
+            prec_i = nd.Hessian(neg_log_quotient)(mode_location)
             mean_i = _factor_utils.make_column_vector(mode_location)
             h_i = prec_i.dot(mean_i)
 
             ut_k_u = ((mean_i.transpose()).dot(prec_i)).dot(mean_i)
-            log_weight_i = -0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi))) * inv_gm.log_potential(mean_i)
+            log_weight_i = -0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi))) - neg_log_quotient(mode_location)
             g_i = log_weight_i - 0.5 * ut_k_u + 0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi)))
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
-- 
2.43.0


From 2d57352eea05203ac2d7fdce80529934f3880708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 56/58] fix: KL-divergence from a zero where exp of the log
 probability underflows

---
 veroku/factors/categorical.py        | 2 ++
 veroku/factors/sparse_categorical.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0c4b8b4..5c9b503 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -449,6 +449,8 @@ class Categorical(Factor):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             kl_array = np.where(log_p != -np.inf, np.exp(log_p) * (log_p - log_q), 0.0)
+        # also where exp(log_p) underflows to zero
+        kl_array = np.where((log_p != -np.inf) & (log_q == -np.inf), np.inf, kl_array)
         kld = np.sum(kl_array)
         return kld
 
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index b70f34b..1312694 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -813,6 +813,9 @@ class SparseCategorical(Factor):
                 # lim_{p->0} p*log(p/q) = 0, with q = p
                 # So if p_i = 0, kld_i = 0
                 return 0.0
+            if log_qi == -np.inf:
+                # also where exp(log_pi) underflows to zero
+                return np.inf
             kld_i = np.exp(log_pi) * (log_pi - log_qi)
             return kld_i
 
-- 
2.43.0


From 1b430ddd01ca7e3cacfedefd122ba0ffa5d47b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 57/58] fix: the number of assignments of a sparse factor
 overflows with many variables

---
 veroku/factors/sparse_categorical.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 1312694..285b212 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -5,6 +5,7 @@ A module for instantiating sparse tables with log probabilities.
 # Standard imports
 import copy
 import itertools
+import math
 import operator
 
 # Third-party imports
@@ -523,12 +524,12 @@ class SparseCategorical(Factor):
             old_assign_probs=self.log_probs_table,
         )
         result_table = dict()
-        num_summed_assignments = int(np.prod([self.var_cards[v] for v in vars_to_sum_out]))
+        num_summed_assignments = math.prod(int(self.var_cards[v]) for v in vars_to_sum_out)
         for l1_assign, log_probs_table in nested_table.items():
             log_probs = list(log_probs_table.values())
             num_default_assignments = num_summed_assignments - len(log_probs)
             if num_default_assignments > 0:
-                log_probs.append(self.default_log_prob + np.log(num_default_assignments))
+                log_probs.append(self.default_log_prob + math.log(num_default_assignments))
             result_table[l1_assign] = special.logsumexp(log_probs)
 
         result_var_cards = copy.deepcopy(self.var_cards)
@@ -541,7 +542,7 @@ class SparseCategorical(Factor):
             var_names=vars_to_keep,
             log_probs_table=result_table,
             cardinalities=cardinalities,
-            default_log_prob=self.default_log_prob + np.log(num_summed_assignments),
+            default_log_prob=self.default_log_prob + math.log(num_summed_assignments),
         )
 
         return resulting_factor
@@ -778,9 +779,9 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         log_probs = list(self.log_probs_table.values())
-        num_default_assignments = int(np.prod(self.cardinalities)) - len(log_probs)
+        num_default_assignments = math.prod(int(card) for card in self.cardinalities) - len(log_probs)
         if num_default_assignments > 0:
-            log_probs.append(self.default_log_prob + np.log(num_default_assignments))
+            log_probs.append(self.default_log_prob + math.log(num_default_assignments))
         return special.logsumexp(log_probs)
 
     def _is_dense(self):
@@ -791,7 +792,7 @@ class SparseCategorical(Factor):
         :rtype: Bool
         """
         num_assignments = len(self.log_probs_table)
-        max_possible_assignments = np.prod(self.cardinalities)
+        max_possible_assignments = math.prod(int(card) for card in self.cardinalities)
         if num_assignments == max_possible_assignments:
             return True
         return False
-- 
2.43.0


From d555f861f0db231f2b80c784a6f5551ee2396b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 58/58] fix: Gaussians with very different weights compared
 equal where the weights over- or underflow

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index b25e95d..38d955c 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -278,7 +278,7 @@ class Gaussian(Factor):
         Helper function for check equivalence of covariance form parameters.
         """
 
-        if not np.isclose(self.get_weight(), gaussian.get_weight(), rtol=rtol, atol=atol, equal_nan=False):
+        if not np.isclose(self.log_weight, gaussian.get_log_weight(), rtol=rtol, atol=atol, equal_nan=False):
             return False
         gaussian._reorder_parameters(self.var_names)
         if not np.allclose(self.mean, gaussian.get_mean(), rtol=rtol, atol=atol, equal_nan=False):
-- 
2.43.0

