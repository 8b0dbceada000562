From d16e2debffed9608212e29495add27a6753a7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 01/27] fix: reject empty non-dictionaries and bounds that are
 not a pair in the options

---
 estimation/utilities/girth_options.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/girth_options.py b/estimation/utilities/girth_options.py
index 889d820..2f94ad2 100644
--- a/estimation/utilities/girth_options.py
+++ b/estimation/utilities/girth_options.py
@@ -56,7 +56,8 @@ def validate_estimation_options(options_dict=None):
                 'distribution':
                     callable,
                 'quadrature_bounds':
-                    lambda x: isinstance(x, (tuple, list)) and (x[1] > x[0]),
+                    lambda x: (isinstance(x, (tuple, list)) and len(x) == 2
+                               and x[1] > x[0]),
                 'quadrature_n':
                     lambda x: isinstance(x, int) and x > 7,
                 'hyper_quadrature_n':
@@ -76,7 +77,7 @@ def validate_estimation_options(options_dict=None):
     # A complete options dictionary
     full_options = default_options()
     
-    if options_dict:
+    if options_dict is not None:
         if not isinstance(options_dict, dict):
             raise AssertionError("Options must be a dictionary got: "
                                 f"{type(options_dict)}.")
-- 
2.43.0


From 3c7b0cc85e458a1d5165171620ed5feefc0e7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 02/27] fix: state the actual quadrature defaults in the
 options documentation

---
 estimation/utilities/girth_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/girth_options.py b/estimation/utilities/girth_options.py
index 2f94ad2..e3c8091 100644
--- a/estimation/utilities/girth_options.py
+++ b/estimation/utilities/girth_options.py
@@ -14,9 +14,9 @@ def default_options():
             evaluated at quadrature points, p = f(theta).
             (Default = scipy.stats.norm(0, 1).pdf)
         quadrature_bounds: (lower, upper) bounds to limit
-            numerical integration. Default = (-5, 5)
+            numerical integration. Default = (-4.5, 4.5)
         quadrature_n: [int] number of quadrature points to use
-                        Default = 61
+                        Default = 41
         hyper_quadrature_n: [int] number of quadrature points to use to
                             estimate hyper prior integral (only mml_eap)
         use_LUT: [boolean] use a look up table in mml functions
-- 
2.43.0


From 2ce95f23cedaf3f8617ded7631c47db5908ab79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 03/27] fix: count no density parameters in the
 multidimensional criteria, the density is never estimated there

---
 estimation/multidimensional/multidimensional_mml_methods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index ee33b72..509472b 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -251,9 +251,9 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
     for ndx, (start_ndx, end_ndx) in enumerate(zip(start_indices, cumulative_item_counts)):
         output_betas[ndx, :end_ndx-start_ndx-1] = betas[start_ndx+1:end_ndx]
     
-    # Compute statistics for final iteration
-    full_metrics = latent_pdf.compute_metrics(partial_int, distribution_x_weight,
-                                             latent_pdf.n_points-3)
+    # Compute statistics for final iteration, the distribution is not estimated
+    # and contributes no free parameters
+    full_metrics = latent_pdf.compute_metrics(partial_int, distribution_x_weight, 0)
     otpt = np.sum(partial_int * distribution_x_weight, axis=1)
 
     discrimination = discrimination[start_indices, :]
-- 
2.43.0


From d4ae586625e67996bf1195732e8e700e53012321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 04/27] fix: grm_mml keeps the parameters at the minimum, not
 at the last trial point

---
 estimation/unidimensional/polytomous/grm_mml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/grm_mml.py b/estimation/unidimensional/polytomous/grm_mml.py
index 5a80f3e..f50c786 100644
--- a/estimation/unidimensional/polytomous/grm_mml.py
+++ b/estimation/unidimensional/polytomous/grm_mml.py
@@ -156,7 +156,10 @@ def grm_mml(dataset, options=None):
                 return -np.log(otpt).sum()
 
             # Univariate minimization for discrimination parameter
-            fminbound(_local_min_func, 0.2, 5.0)
+            min_estimate = fminbound(_local_min_func, 0.2, 5.0)
+
+            # The last function evaluation is not always the minimum
+            _local_min_func(min_estimate)
 
             new_values = _graded_partial_integral(theta, betas, betas_roll,
                                                   discrimination,
-- 
2.43.0


From eb62a78fd6440e6c33e577645643f18703bcda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 05/27] fix: onepl_jml keeps the difficulties at the minimum,
 not at the last trial point

---
 estimation/unidimensional/dichotomous/jml_methods.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estimation/unidimensional/dichotomous/jml_methods.py b/estimation/unidimensional/dichotomous/jml_methods.py
index 9b9c5b5..5b66c37 100644
--- a/estimation/unidimensional/dichotomous/jml_methods.py
+++ b/estimation/unidimensional/dichotomous/jml_methods.py
@@ -146,6 +146,9 @@ def onepl_jml(dataset, options=None):
             return cost
 
         min_alpha = fminbound(_alpha_min, 0.25, 5)
+
+        # The last function evaluation is not always the minimum
+        _alpha_min(min_alpha)
         alphas[:] = min_alpha
 
         return alphas, betas
-- 
2.43.0


From e530d7c6409b82fa7e01bca20daf9bbacea00aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 06/27] fix: onepl_mml reports the difficulties that belong to
 the reported discrimination

---
 estimation/unidimensional/dichotomous/rasch_mml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/rasch_mml.py b/estimation/unidimensional/dichotomous/rasch_mml.py
index 144f03d..dc3ba2b 100644
--- a/estimation/unidimensional/dichotomous/rasch_mml.py
+++ b/estimation/unidimensional/dichotomous/rasch_mml.py
@@ -110,8 +110,10 @@ def onepl_mml(dataset, alpha=None, options=None):
     # Perform the minimization
     if alpha is None:  # OnePL Method
         alpha = fminbound(min_func, 0.25, 10)
-    else:  # Rasch Method
-        min_func(alpha)
+
+    # The difficulties that belong to the discrimination, the
+    # last function evaluation is not always the minimum
+    min_func(alpha)
 
     return {"Discrimination": alpha, 
             "Difficulty": difficulty}
-- 
2.43.0


From 9a871c1f1b40a1f93c7d8e237552a71afddc6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 07/27] fix: threepl_mml keeps the parameters at the minimum,
 not at the last trial point

---
 estimation/unidimensional/dichotomous/threepl_mml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/threepl_mml.py b/estimation/unidimensional/dichotomous/threepl_mml.py
index 0ce5fa2..706f6d7 100644
--- a/estimation/unidimensional/dichotomous/threepl_mml.py
+++ b/estimation/unidimensional/dichotomous/threepl_mml.py
@@ -90,8 +90,11 @@ def threepl_mml(dataset, options=None):
 
             # Solve for the discrimination parameters
             initial_guess = [discrimination[ndx], guessing[ndx]]
-            fmin_slsqp(min_func_local, initial_guess, 
-                       bounds=([0.25, 4], [0, .33]), iprint=False)
+            min_estimate = fmin_slsqp(min_func_local, initial_guess, 
+                                      bounds=([0.25, 4], [0, .33]), iprint=False)
+
+            # The last function evaluation is not always the minimum
+            min_func_local(min_estimate)
 
             # Update the partial integral based on the new found values
             estimate_int = _compute_partial_integral_3pl(theta, difficulty[ndx, None],
-- 
2.43.0


From 40653f1cfb3149a2d56380afeaf91afbc819b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 08/27] fix: multidimensional_grm_mml keeps the parameters at
 the minimum, not at the last trial point

---
 .../multidimensional/multidimensional_mml_methods.py  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index 509472b..39ae26c 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -219,12 +219,15 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
 
             # Univariate minimization for discrimination parameter
             if item_ndx == (n_items-1):
-                fminbound(_local_min_func, 0.2, 5.0)
+                min_estimate = fminbound(_local_min_func, 0.2, 5.0)
             else:
                 initial_guess = discrimination[start_ndx, :][:discrimination_length]
-                fmin_slsqp(_local_min_func, initial_guess,
-                           disp=False,
-                           bounds=bounds[item_ndx])
+                min_estimate = fmin_slsqp(_local_min_func, initial_guess,
+                                          disp=False,
+                                          bounds=bounds[item_ndx])
+
+            # The last function evaluation is not always the minimum
+            _local_min_func(min_estimate)
 
             new_values = _graded_partial_integral_md(theta, betas, betas_roll,
                                                      discrimination,
-- 
2.43.0


From 53857f079e02bf196b669d7b405729df762fc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 09/27] fix: the latent density uses the coefficients the
 minimiser returned

---
 .../utilities/latent_ability_distribution.py       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/estimation/utilities/latent_ability_distribution.py b/estimation/utilities/latent_ability_distribution.py
index 4a5901e..1d63aca 100644
--- a/estimation/utilities/latent_ability_distribution.py
+++ b/estimation/utilities/latent_ability_distribution.py
@@ -259,15 +259,15 @@ class LatentPDF(object):
             return -np.log(otpt).sum()
 
         # run the minimization
-        fmin_slsqp(_local_minimizer, 
-                   local_spline.coefficients[2:-2], 
-                   bounds=[(0, np.inf),] * local_spline.number_of_samples, 
-                   f_eqcons=_parameter_constraints,
-                   args=(local_spline.sample_space[2:-2],),
-                   iprint=False)
+        new_coefficients = fmin_slsqp(_local_minimizer, 
+                                      local_spline.coefficients[2:-2], 
+                                      bounds=[(0, np.inf),] * local_spline.number_of_samples, 
+                                      f_eqcons=_parameter_constraints,
+                                      args=(local_spline.sample_space[2:-2],),
+                                      iprint=False)
         
         # Update the estimates for the cubic spline
-        local_spline.update_coefficients(coefficients[2:-2])
+        local_spline.update_coefficients(new_coefficients)
         
         # return the distribution
         return local_spline(self.quadrature_locations)
-- 
2.43.0


From 12dba5e9bb9af5bd53d8e1bd6d4cb7c16923c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 10/27] fix: refuse unfolding thresholds that are not symmetric
 about their centre

The check only compared the sum of the offsets with zero, so five or more
asymmetric thresholds whose offsets cancel were accepted.
---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..82cfc8c 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty +
+                             adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From 565388d5d6d88a89318712eb75b9a064f3add994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 11/27] fix: the 3PL partial integral keeps its person axis
 when there is one person

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..5dd2e0a 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -60,4 +60,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From 4aa56ef5d29275e111862bee655b413de7b5a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 12/27] fix: the two parameter estimators return one difficulty
 per item when there is one item

---
 estimation/multidimensional/multidimensional_mml_methods.py | 2 +-
 estimation/unidimensional/dichotomous/twopl_mml.py          | 2 +-
 estimation/unidimensional/dichotomous/twopl_mml_eap.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index 39ae26c..53bb2de 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -45,7 +45,7 @@ def multidimensional_twopl_mml(dataset, n_factors, options=None):
         * initial_guess: boolean
     """    
     results = multidimensional_grm_mml(dataset, n_factors, options)
-    results['Difficulty'] = results['Difficulty'].squeeze()
+    results['Difficulty'] = results['Difficulty'].squeeze(axis=1)
     return results    
 
 
diff --git a/estimation/unidimensional/dichotomous/twopl_mml.py b/estimation/unidimensional/dichotomous/twopl_mml.py
index 3288aa3..873589e 100644
--- a/estimation/unidimensional/dichotomous/twopl_mml.py
+++ b/estimation/unidimensional/dichotomous/twopl_mml.py
@@ -22,5 +22,5 @@ def twopl_mml(dataset, options=None):
         * use_LUT: boolean    
     """
     results = grm_mml(dataset, options)
-    results['Difficulty'] = results['Difficulty'].squeeze()
+    results['Difficulty'] = results['Difficulty'].squeeze(axis=1)
     return results
\ No newline at end of file
diff --git a/estimation/unidimensional/dichotomous/twopl_mml_eap.py b/estimation/unidimensional/dichotomous/twopl_mml_eap.py
index 848f176..62f34b1 100644
--- a/estimation/unidimensional/dichotomous/twopl_mml_eap.py
+++ b/estimation/unidimensional/dichotomous/twopl_mml_eap.py
@@ -38,5 +38,5 @@ def twopl_mml_eap(dataset, options=None):
         * hyper_quadrature_n: int
     """
     result = grm_mml_eap(dataset.astype('int'), options)
-    result['Difficulty'] = result['Difficulty'].squeeze()
+    result['Difficulty'] = result['Difficulty'].squeeze(axis=1)
     return result
-- 
2.43.0


From add9a162e6b9eafdcbae15a45ddd6094361f9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 13/27] fix: score respondents with missing data by their valid
 responses in the maximum likelihood scorers

---
 .../unidimensional/dichotomous/ability_estimation.py     | 2 +-
 estimation/unidimensional/dichotomous/ability_threepl.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..47324c3 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -51,7 +51,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (dataset.min(axis=0, where=~bad_mask, initial=1) == 0)
     thetas[mask2] *= -1
 
     return thetas
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..e4052a8 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -5,7 +5,7 @@ from scipy.stats import norm as gaussian
 from scipy.optimize import fminbound
 
 from girth.utilities import (
-    convert_responses_to_kernel_sign, validate_estimation_options)
+    convert_responses_to_kernel_sign, validate_estimation_options, INVALID_RESPONSE)
 from girth.utilities.utils import _get_quadrature_points
 from girth.unidimensional.dichotomous.partial_integrals import _compute_partial_integral_3pl
 
@@ -30,8 +30,11 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
+    # Find any missing data
+    bad_mask = dataset == INVALID_RESPONSE
+
     # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    mask = np.nanvar(dataset, axis=0, where=~bad_mask) > 0
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +49,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (dataset.min(axis=0, where=~bad_mask, initial=1) == 0)
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From a97764b6696d64f098800aab4102e841cfa644e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 14/27] fix: tag_missing_data widens the storage type so that
 it can hold the placeholder

---
 estimation/utilities/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..ca836e6 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,7 +24,8 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
+    # The type of the data must be able to hold the placeholder
+    output = dataset.astype(np.result_type(dataset.dtype, np.int32))
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From 40f96d2ca7c1bb2f629fbf845403996c98ed4611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 15/27] fix: linear response indices are integers whatever the
 type of the responses

---
 estimation/utilities/polytomous_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..4cb2268 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -43,13 +43,12 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask = dataset != INVALID_RESPONSE
     
     betas_length = np.zeros((n_items,), dtype='int')
-    the_output = dataset.copy()
-    the_output -= min_value
+    the_output = np.zeros(dataset.shape, dtype='int')
     
     # Loop over rows, determine the number of unique
     # responses, and replace with linear indexing
     cnt = 0
-    for ndx, item in enumerate(the_output):
+    for ndx, item in enumerate(dataset):
         values, indices = np.unique(item[valid_response_mask[ndx]], 
                                     return_inverse=True)
         betas_length[ndx] = max(values.size, 2)
@@ -57,7 +56,7 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         # Recode from zero to N-1
         recode = np.arange(0, betas_length[ndx])
         if values.size == 1:
-            recode = np.array([values[0] != 0], dtype='int')
+            recode = np.array([values[0] != min_value], dtype='int')
         values = recode + cnt * _reference
         the_output[ndx, valid_response_mask[ndx]] = values[indices]
 
-- 
2.43.0


From 8a8173ddffb5faf6cdcd24ea38b89af33558ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 16/27] fix: boolean and floating point responses select the
 probability of their category

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index 5dd2e0a..d1ad783 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -23,7 +23,7 @@ def _compute_partial_integral(theta, difficulty, discrimination,
                         discrimination * (theta - difficulty)))
     
     # Mask out missing responses
-    temp_output = probability[responses, :]
+    temp_output = probability[responses.astype('int'), :]
     temp_output[invalid_response_mask] = 1
     return temp_output
 
-- 
2.43.0


From 5cbd892e0d1d28e7b456d11a6652be0d5d20c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 17/27] fix: rasch_conditional accepts floating point responses

---
 estimation/unidimensional/dichotomous/rasch_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/rasch_conditional.py b/estimation/unidimensional/dichotomous/rasch_conditional.py
index 2bec43e..b8f4802 100644
--- a/estimation/unidimensional/dichotomous/rasch_conditional.py
+++ b/estimation/unidimensional/dichotomous/rasch_conditional.py
@@ -56,7 +56,7 @@ def rasch_conditional(dataset, discrimination=1, options=None):
     # Remove the zero and full count values
     unique_sets, counts = trim_response_set_and_counts(unique_sets, counts)
 
-    response_set_sums = unique_sets.sum(axis=0)
+    response_set_sums = unique_sets.sum(axis=0).astype('int')
 
     for iteration in range(options['max_iteration']):
         previous_betas = betas.copy()
-- 
2.43.0


From 58f526c7536ce93c15c3a95120e1aa995427a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 18/27] fix: initial_guess_md passes integer categories
 whatever the type of the responses

---
 estimation/multidimensional/multidimensional_initial_guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 5852f51..96f8ca7 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -52,7 +52,7 @@ def initial_guess_md(dataset, n_factors, options=None):
     valid_mask = dataset != INVALID_RESPONSE
 
     unique_values = np.unique(dataset[valid_mask])
-    start_value, stop_value = unique_values[0], unique_values[-1]
+    start_value, stop_value = int(unique_values[0]), int(unique_values[-1])
 
     correlation = polychoric_correlation(dataset, start_value,
                                          stop_value, options['num_processors'])
-- 
2.43.0


From 455f3dff8abc6b46bf194b310c907d633a3bf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 19/27] fix: contingency_table does not overflow the type of
 the responses

---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..60abba1 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) & 
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From 88981bad7df06656a6e9e90280a98da36511c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 20/27] fix: cubic_spline evaluates integer positions

---
 estimation/utilities/latent_ability_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/latent_ability_distribution.py b/estimation/utilities/latent_ability_distribution.py
index 1d63aca..f2d3cf2 100644
--- a/estimation/utilities/latent_ability_distribution.py
+++ b/estimation/utilities/latent_ability_distribution.py
@@ -111,7 +111,7 @@ class CubicSplinePDF(object):
             y_value: result of cubic spline evaluationn
         """
         abs_x = np.abs(x_position)
-        y_value = np.zeros_like(abs_x)
+        y_value = np.zeros_like(abs_x, dtype='float')
         y1 = 2. / 3. - np.power(abs_x, 2) + np.power(abs_x, 3) * 0.5
         y2 = np.power(2 - abs_x, 3) / 6
         y_value[abs_x < 2] = y2[abs_x < 2]
-- 
2.43.0


From 039b45e113d422d576068f1a87e01289d02678e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 21/27] fix: create_synthetic_irt_dichotomous does not truncate
 parameters to integers

---
 synthetic/dichotomous.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..c504f3b 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -30,12 +30,13 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
 
     """
     rng = np.random.default_rng(seed)
+    thetas = np.asarray(thetas, dtype='float')
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-- 
2.43.0


From 5e0dae77cdd89b932689eb957bdabc9961ceae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 22/27] fix: entropy accepts integer arrays

---
 common/entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/entropy.py b/common/entropy.py
index b9cad89..66604dd 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -18,7 +18,7 @@ def entropy(the_array, axis=1):
     power = the_array * the_array
     sum_power = power.sum(axis=axis)
     if axis:
-        power /= sum_power.reshape(-1, 1)
+        power = power / sum_power.reshape(-1, 1)
     else:
-        power /= sum_power
+        power = power / sum_power
     return -(power * np.log(power + 1e-23)).sum()
\ No newline at end of file
-- 
2.43.0


From 44cfac8a68e3f0848c0eca1a2b603409eacf1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 23/27] fix: maximum_likelihood_factor_analysis does not
 truncate unique variances to integers

---
 factoranalysis/maximum_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index b69415f..22108e6 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -36,7 +36,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
     if initial_guess is None:
         uvars = np.diag(input_matrix - loads @ loads.T).copy()
     else:
-        uvars = initial_guess.copy()
+        uvars = np.array(initial_guess, dtype='float')
     
     identity_items = np.eye(n_items)
 
-- 
2.43.0


From 0ef6646d18fc309579cc9892f430683336cfe46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 24/27] fix: difficulties of an item with a single category are
 not truncated to integers

---
 estimation/utilities/polytomous_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 4cb2268..4b9cae5 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -97,7 +97,7 @@ def _solve_for_constants(item_responses):
 
 def _solve_integral_equations(discrimination, ratio, distribution, theta, _):
     """Solve single sigmoid integral for difficulty parameter."""
-    difficulty = np.zeros_like(ratio)
+    difficulty = np.zeros_like(ratio, dtype='float')
     temp1 = np.exp(-1 * discrimination * theta)
     
     for ratio_ndx, value in enumerate(ratio):
-- 
2.43.0


From bd984a061a30195905ece4ec2b02cde01f1a1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 25/27] fix: solve the constants of a single-category item from
 its own category number

The responses handed to _solve_for_constants are linear indices, so the test
for the lowest category only held for the first item; any later item with a
single category was treated as if everyone had endorsed it.
---
 estimation/multidimensional/multidimensional_mml_methods.py | 3 ++-
 estimation/unidimensional/polytomous/grm_mml.py             | 3 ++-
 estimation/unidimensional/polytomous/grm_mml_eap.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index 53bb2de..cfbde33 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -114,7 +114,8 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]] -
+                                           start_indices[ndx])
         integral_counts.append(temp_output)
 
     if options['initial_guess']:
diff --git a/estimation/unidimensional/polytomous/grm_mml.py b/estimation/unidimensional/polytomous/grm_mml.py
index f50c786..ef2da56 100644
--- a/estimation/unidimensional/polytomous/grm_mml.py
+++ b/estimation/unidimensional/polytomous/grm_mml.py
@@ -79,7 +79,8 @@ def grm_mml(dataset, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]] -
+                                           start_indices[ndx])
         integral_counts.append(temp_output)
 
     # Set invalid index to zero, this allows minimal
diff --git a/estimation/unidimensional/polytomous/grm_mml_eap.py b/estimation/unidimensional/polytomous/grm_mml_eap.py
index a3222d9..0a83827 100644
--- a/estimation/unidimensional/polytomous/grm_mml_eap.py
+++ b/estimation/unidimensional/polytomous/grm_mml_eap.py
@@ -75,7 +75,8 @@ def grm_mml_eap(dataset, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]] -
+                                           start_indices[ndx])
         integral_counts.append(temp_output)
     
     # Set invalid index to zero, this allows minimal
-- 
2.43.0


From df6d5e14a4337d26dd272e69fe565052b0d048b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 26/27] fix: start multidimensional graded thresholds in the
 order the model assumes

Without an initial guess, thresholds of items with more than two categories
started in ascending order while the model is written for descending ones:
probabilities of inner categories were negative and the first objective
evaluations were not a number.
---
 estimation/multidimensional/multidimensional_mml_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index cfbde33..9fdb8cd 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -140,7 +140,7 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
         for ndx in range(n_items):
             end_ndx = cumulative_item_counts[ndx]
             start_ndx = start_indices[ndx] + 1
-            betas[start_ndx:end_ndx] = np.linspace(-1, 1,
+            betas[start_ndx:end_ndx] = np.linspace(1, -1,
                                                    item_counts[ndx] - 1)
 
     betas_roll = np.roll(betas, -1)
-- 
2.43.0


From de2f6c5618effd18a33458e6adef213a2d04af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 27/27] fix: keep an unseeded loading rotation off numpy's
 global generator

---
 factoranalysis/rotation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/factoranalysis/rotation.py b/factoranalysis/rotation.py
index 5534fdc..4e7466c 100644
--- a/factoranalysis/rotation.py
+++ b/factoranalysis/rotation.py
@@ -29,6 +29,11 @@ def sparsify_loadings(loadings, initial_guess=None, alpha=0.5,
         bases: Bases vectors defining the new coordiante system in row space
     """
     n_factors = loadings.shape[1]
+
+    # Without a seed the search must not use (and advance) the global generator
+    if seed is None:
+        seed = np.random.default_rng()
+
     if initial_guess is None:
         rng = np.random.default_rng(seed)
         initial_guess = rng.uniform(0, 2 * np.pi, n_factors * (n_factors - 1))
-- 
2.43.0

