From 77a5ae2ff51a26acd5186b580fa53bd47ea5e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 01/23] fix: AdaptiveConformalRegressor.update_error works for
 scalar targets with weights

---
 fortuna/conformal/regression/adaptive_conformal_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/regression/adaptive_conformal_regressor.py b/fortuna/conformal/regression/adaptive_conformal_regressor.py
index 15fb66f..101e0f0 100644
--- a/fortuna/conformal/regression/adaptive_conformal_regressor.py
+++ b/fortuna/conformal/regression/adaptive_conformal_regressor.py
@@ -107,7 +107,7 @@ class AdaptiveConformalRegressor:
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], conformal_interval[None])[0]
+        is_in = self.is_in(target.reshape(1), conformal_interval[None])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From 91fcf20f3920ef09305e788a1b0fd5ddaff75615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 02/23] fix: AdaptiveConformalClassifier.update_error looks up
 one-element targets in the set

---
 .../conformal/classification/adaptive_conformal_classifier.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/adaptive_conformal_classifier.py b/fortuna/conformal/classification/adaptive_conformal_classifier.py
index 21c372c..45238f2 100644
--- a/fortuna/conformal/classification/adaptive_conformal_classifier.py
+++ b/fortuna/conformal/classification/adaptive_conformal_classifier.py
@@ -110,7 +110,7 @@ class AdaptiveConformalClassifier(ConformalClassifier):
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], [conformal_set])
+        is_in = self.is_in(target.reshape(1), [conformal_set])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From d7ec7cb9bc4dbc4668cb86e56ad4f5074bce830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 03/23] fix: conformal sets contain the labels with low, not
 high, non-conformity scores

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From a3365410501444951831c2783deac8a3765da292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 04/23] fix: EnbPI online update accepts batches of new targets
 and leaves the given residuals alone

---
 fortuna/conformal/regression/enbpi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..b6fb142 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,12 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            -len(train_residuals) :
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From a274cd2b855572632ed1b0f02b52c0000612abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 05/23] fix: CVPlusConformalRegressor does not modify the lists
 of the caller

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..9ef9ea7 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From 3390c22eb470d0a082bd86d276df96a25935bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 06/23] fix: OneDimensionalUncertaintyConformalRegressor checks
 the shape of test_uncertainties

---
 fortuna/conformal/regression/onedim_uncertainty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/regression/onedim_uncertainty.py b/fortuna/conformal/regression/onedim_uncertainty.py
index 5b40ead..0af540c 100644
--- a/fortuna/conformal/regression/onedim_uncertainty.py
+++ b/fortuna/conformal/regression/onedim_uncertainty.py
@@ -134,7 +134,7 @@ class OneDimensionalUncertaintyConformalRegressor(ConformalRegressor):
                 """`test_preds` must be a two-dimensional array. The second dimension must have only one
             component."""
             )
-        if test_uncertainties.ndim != 2 or val_uncertainties.shape[1] != 1:
+        if test_uncertainties.ndim != 2 or test_uncertainties.shape[1] != 1:
             raise ValueError(
                 """`test_uncertainties` must be a two-dimensional array. The second dimension must have
             only one component."""
-- 
2.43.0


From 4cf2c34252ac0717a6e0289fa78db670ff96f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 07/23] fix: ProbOutputLayer.std takes the square root of given
 variances; unknown interval types raise ValueError

---
 fortuna/prob_output_layer/base.py       | 2 +-
 fortuna/prob_output_layer/regression.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..565dff2 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,7 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        return jnp.sqrt(self.variance(outputs) if variances is None else variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From 6b7de1ebdb583c9e669379d03236e8466f029760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 08/23] fix: unknown return_aux entries are rejected with the
 documented message

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..0149cb1 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From 503b67ce36b661be732727e4edd21ff9b4d7851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 09/23] fix: Predictive.sample accepts a random key and returns
 the requested outputs

---
 fortuna/prob_model/predictive/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 0149cb1..013a4ec 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
@@ -367,7 +367,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -376,15 +376,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From 517a0e253de0045a0a5a1a2b22568838672bd368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:08 +0000
Subject: [PATCH 10/23] fix: the batched log-likelihood works without an output
 calibration manager

---
 fortuna/likelihood/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..90ffcec 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -236,8 +236,11 @@ class Likelihood(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
-            calib_mutable is not None
+            self.output_calib_manager is not None
+            and calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
             and "calib_mutable" in return_aux
         ):
-- 
2.43.0


From 27d321e75ea8043a60d722a93575113b8ee30e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 11/23] fix: the negative batched log-joint probabilities
 accept a missing return_aux

---
 fortuna/prob_model/joint/base.py      | 2 +-
 fortuna/prob_model/predictive/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/joint/base.py b/fortuna/prob_model/joint/base.py
index 7af4d41..1be8353 100755
--- a/fortuna/prob_model/joint/base.py
+++ b/fortuna/prob_model/joint/base.py
@@ -148,7 +148,7 @@ class Joint(WithRNG):
             rng,
             **kwargs,
         )
-        if len(return_aux) > 0:
+        if return_aux is not None and len(return_aux) > 0:
             loss, aux = outs
             loss *= -1
             return loss, aux
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 013a4ec..e97e050 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -309,7 +309,7 @@ class Predictive(WithRNG):
             rng,
             **kwargs,
         )
-        if len(return_aux) > 0:
+        if return_aux is not None and len(return_aux) > 0:
             loss, aux = outs
             loss *= -1
             return loss, aux
-- 
2.43.0


From bc392d7f7285a4eac50bedc28f3060c7f168622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:30 +0000
Subject: [PATCH 12/23] fix: the size of distributed ensemble outputs counts
 data points, not devices

---
 fortuna/prob_model/predictive/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e97e050..33d47ce 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -560,11 +560,6 @@ class Predictive(WithRNG):
         iterable = []
         size = 0
         for inputs in inputs_loader:
-            size += (
-                inputs.shape[0]
-                if not isinstance(inputs, dict)
-                else inputs[list(inputs.keys())[0]].shape[0]
-            )
             if distribute:
                 outputs = jnp.stack(
                     list(map(lambda key: _sample(shard_prng_key(key), inputs), keys)),
@@ -573,6 +568,7 @@ class Predictive(WithRNG):
                 outputs = self._unshard_ensemble_arrays(outputs)
             else:
                 outputs = lax.map(lambda key: _sample(key, inputs), keys)
+            size += outputs.shape[1]
             iterable.append(outputs)
         iterable = TargetsLoader.from_iterable(iterable=iterable)
         if return_size:
-- 
2.43.0


From 8e8eb95147df743553b462c450b34b64a844b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 13/23] fix: the kernel Stein discrepancy accepts c and beta

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
index 0ac0c31..b97e6ad 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
@@ -1,3 +1,4 @@
+from functools import partial
 from typing import (
     List,
     Optional,
@@ -13,7 +14,7 @@ import jax.numpy as jnp
 from optax._src.base import PyTree
 
 
-@jit
+@partial(jit, static_argnames=("c", "beta"))
 def kernel_stein_discrepancy_imq(
     samples: List[PyTree],
     grads: List[PyTree],
-- 
2.43.0


From cbdf5c8444bb7fbef5d5212e67d542993dd7b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 14/23] fix: Nadaraya-Watson regression of constant targets is
 not NaN

---
 fortuna/kernel_regression/nadaraya_watson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fortuna/kernel_regression/nadaraya_watson.py b/fortuna/kernel_regression/nadaraya_watson.py
index 056f679..f674424 100644
--- a/fortuna/kernel_regression/nadaraya_watson.py
+++ b/fortuna/kernel_regression/nadaraya_watson.py
@@ -38,7 +38,10 @@ class NadarayaWatsonKernelRegressor:
             )
         self.train_inputs = jnp.copy(train_inputs)
         self._mean_train_targets = jnp.mean(train_targets)
-        self._std_train_targets = jnp.std(train_targets)
+        std_train_targets = jnp.std(train_targets)
+        self._std_train_targets = jnp.where(
+            std_train_targets > 0, std_train_targets, 1.0
+        )
         self.standardized_train_targets = (
             jnp.copy(train_targets) - self._mean_train_targets
         ) / self._std_train_targets
-- 
2.43.0


From 5c68713350b49799ab1ad639283342539b778c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 15/23] fix: the calibration model loss works without an output
 calibrator

---
 fortuna/calib_model/loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..72221d2 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -108,6 +108,8 @@ class Loss(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
             calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
-- 
2.43.0


From 21bbc996d1505cc90e9917ca019dc030f3a31fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 16/23] fix: the output calibration loss accepts mutable=None

---
 fortuna/output_calib_model/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index 5142cb2..299316c 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -52,7 +52,7 @@ class Loss(WithRNG):
         outs = self.predictive.output_calib_manager.apply(
             params=params["output_calibrator"],
             outputs=outputs,
-            mutable=mutable["output_calibrator"],
+            mutable=mutable["output_calibrator"] if mutable is not None else None,
             rng=rng,
             calib="mutable" in return_aux,
         )
-- 
2.43.0


From 59a725d02853ad6d5e77f4f5bd1f5932267a6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 17/23] fix: TargetsLoader.from_data_loader returns a targets
 loader

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..8d2a675 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From d6700a1ba373b9f61bf25f983f114b2132b4fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 18/23] fix: tuning the Laplace prior log-variance works with
 and without distribution

---
 .../posterior/laplace/laplace_posterior.py      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..f09e636 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -11,7 +11,6 @@ from typing import (
 
 from flax.core import FrozenDict
 from flax.training.common_utils import (
-    shard,
     shard_prng_key,
 )
 import jax
@@ -489,21 +488,25 @@ class LaplacePosterior(Posterior):
         candidates = list(
             jnp.linspace(min_prior_log_var, max_prior_log_var, grid_size)
         ) + [jnp.array(self.joint.prior.log_var)]
+        rng = jax.random.PRNGKey(0)
         if distribute:
-            rng = shard_prng_key(jax.random.PRNGKey(0))
+            rng = shard_prng_key(rng)
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
-            candidates = [shard(c) for c in candidates]
-            fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
+            fn = pmap(
+                self._batched_log_prob,
+                in_axes=(0, None, None, 0),
+                static_broadcasted_argnums=(2,),
+            )
+            unshard_fn = self.joint.likelihood._unshard_array
         else:
             fn = jit(self._batched_log_prob, static_argnums=(2,))
+            unshard_fn = lambda arr: arr
 
         for lpv in tqdm.tqdm(candidates, desc="Tuning prior log-var"):
             neg_log_prob = -jnp.sum(
                 jnp.concatenate(
                     [
-                        self.joint.likelihood._unshard_array(
-                            fn(batch, lpv, n_posterior_samples, rng)
-                        )
+                        unshard_fn(fn(batch, lpv, n_posterior_samples, rng))
                         for batch in val_data_loader
                     ],
                     0,
-- 
2.43.0


From 5cec9de9cbe12e3434355fe549ea726b068dab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:25 +0000
Subject: [PATCH 19/23] fix: ADVI restarts with the log standard deviations in
 the order of the means

---
 .../posterior/normalizing_flow/advi/advi_posterior.py    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..c3ef53a 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -436,14 +436,7 @@ class ADVIPosterior(Posterior):
 
             if log_stds is not None:
                 rav_log_stds = ravel_pytree(
-                    nested_set(
-                        d={},
-                        key_paths=which_params,
-                        objs=tuple(
-                            [nested_get(log_stds, path) for path in which_params]
-                        ),
-                        allow_nonexistent=True,
-                    )
+                    tuple([nested_get(log_stds, path) for path in which_params])
                 )[0]
             else:
                 rav_log_stds = None
-- 
2.43.0


From ebaaf6c38fe4ed5573995a86499a226fe2427012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 20/23] fix: the mean squared error of scores with a column is
 a mean

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From e8b5c501d343b906ecc2787bfeef6ae275ec948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 21/23] fix: BatchMVP checks test thresholds and computes
 errors without thresholds

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..ab6128b 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,8 +279,14 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
-            raise ValueError("All elements in `thresholds` must be within [0, 1].")
+        if values is not None:
+            if jnp.any(values < 0) or jnp.any(values > 1):
+                raise ValueError("All elements in `thresholds` must be within [0, 1].")
+        if test_values is not None:
+            if jnp.any(test_values < 0) or jnp.any(test_values > 1):
+                raise ValueError(
+                    "All elements in `test_thresholds` must be within [0, 1]."
+                )
 
     @staticmethod
     def _check_coverage(coverage: float):
-- 
2.43.0


From 0864ecac510c148545051e4ab49c5e9d532d10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:28 +0000
Subject: [PATCH 22/23] fix: the patch of a converged multivalid round is kept

---
 fortuna/conformal/multivalid/iterative/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..61e8509 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -266,6 +266,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 )
                 break
             if val_losses[-1] <= atol:
+                self._patches.append((taut, gt, vt, ct, patch))
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
                 converged = True
                 break
@@ -275,6 +276,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                     f"The loss started increasing on the validation data."
                 )
                 break
+            self._patches.append((taut, gt, vt, ct, patch))
             if (
                 jnp.any(val_bt)
                 and (val_losses[-2] - val_losses[-1]) / val_losses[-2] <= rtol
@@ -284,8 +286,6 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             old_losses = jnp.copy(losses)
 
-            self._patches.append((taut, gt, vt, ct, patch))
-
         status = dict(
             n_rounds=len(self.patches),
             losses=val_losses,
-- 
2.43.0


From 6042cf271250b9f67ea7ea734c4248b06dfee080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:57 +0000
Subject: [PATCH 23/23] fix: one-shot patches of a point depend on its own
 value only

---
 fortuna/conformal/multivalid/one_shot/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..a517421 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -137,13 +137,13 @@ class OneShotMultivalidMethod(MultivalidMethod):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
+                    patched_values = patched_values.at[b[:, i, c] & (values == v)].set(
                         self._patches[idx_v, c]
                     )
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0

