From 49f7c126be39d8f7f1089e96bb961b5405134b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 01/19] fix: SGLD/PSGLD update all latents from the same
 pre-iteration state

The assignment of one latent variable was not ordered after the gradients
of the others, so depending on the execution order a gradient could read an
already updated latent.
---
 zhusuan/sgmcmc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..eff17b4 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -189,15 +189,21 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        new_qs = [self._update_single(q, grad)
+                  for q, grad in zip(qs, grad_func(qs))]
+        return self._assign_all(qs, new_qs)
 
     def _update_single(self, q, grad):
-        new_q = q + 0.5 * self.lr * grad + tf.random_normal(
+        return q + 0.5 * self.lr * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
+
+    def _assign_all(self, qs, new_qs):
+        # The gradient of one latent may read any other latent, so no latent
+        # can be overwritten before the new values of all of them are known.
+        with tf.control_dependencies(new_qs):
+            update_ops = [q.assign(new_q) for q, new_q in zip(qs, new_qs)]
+        infos = [{"q": new_q} for new_q in new_qs]
+        return update_ops, infos
 
 
 class PSGLD(SGLD):
@@ -244,17 +250,15 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        new_qs = [self._update_single(q, grad, aux)
+                  for q, grad, aux in zip(qs, grad_func(qs), self.vs)]
+        return self._assign_all(qs, new_qs)
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
             self.preconditioner_hparams, q, grad, aux)
-        new_q = q + 0.5 * self.lr * g * grad + tf.random_normal(
+        return q + 0.5 * self.lr * g * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr * g))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
 
 
 class SGHMC(SGMCMC):
-- 
2.43.0


From 47c49484e1483ea5bbcf54ed02a3671ba6ca3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 02/19] fix: advance the SGMCMC iteration counter after the
 updates that read it

The increment of t ran in parallel with the reads of t that decide whether
to resample the momentum, so the resampling iteration depended on the
execution order and could differ between latents.
---
 zhusuan/sgmcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index eff17b4..c49240a 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,9 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        # The updates read `t`, so it is advanced only after all of them.
+        with tf.control_dependencies(update_ops):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From c1e84d7ac2af68de9cfd78b2df6599e74e1cdcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:58 +0000
Subject: [PATCH 03/19] fix: HMC overwrites the step size only after the
 iteration used it

With adapt_step_size fed False the new step size does not depend on the
trajectory, so its assignment raced with the leapfrog steps and the initial
step size search that read the variable.
---
 zhusuan/hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..fa39fab 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -376,7 +376,10 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # This iteration must have used the current step size before it is
+        # overwritten (without adaptation, new_step_size depends on nothing).
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From b2f9592debbcdcc4c51acf25dd4013d69e75247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:58 +0000
Subject: [PATCH 04/19] fix: HMC keeps the initial step size when it never
 adapts

log_epsilon_bar started at 0, so with adapt_step_size fed False from the
first iteration the sampler switched to a step size of 1.
---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index fa39fab..af7f6af 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -81,8 +81,10 @@ class StepsizeTuner:
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
+            # Until adapted, the averaged step size is the initial one.
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(tf.cast(initial_stepsize, tf.float32)),
+                dtype=tf.float32, name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
-- 
2.43.0


From 6a76e672829c7a41828965f7d664a6fc4c611839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:58 +0000
Subject: [PATCH 05/19] fix: HMC mass adaptation no longer yields an infinite
 mass

If no variance had been collected when the mass takes effect (adaptation fed
False, or a single chain that was rejected so far) the mass was 1/0, the
momentum was infinite and no chain could ever move again.
---
 zhusuan/hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index af7f6af..5e1649b 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -151,7 +151,10 @@ class ExponentialWeightedMovingVariance:
         return update_var
 
     def get_precision(self, var_in):
-        return [(self.one / var) for var in var_in]
+        # A variance of zero (no sample collected, or the chains have not
+        # moved yet) carries no information: use unit mass.
+        return [tf.where(tf.greater(var, 0.), self.one / var,
+                         tf.ones_like(var)) for var in var_in]
 
     def get_updated_precision(self, x):
         # Should be called only once
-- 
2.43.0


From 226e2d6c615a66ac694859b1bcf1249faa0f1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:43 +0000
Subject: [PATCH 06/19] fix: REINFORCE reads its moving-mean baseline before
 updating it

The subtraction of moving_mean raced with its update, so depending on the
execution order the baseline contained the current samples and biased the
gradient estimator.
---
 zhusuan/variational/exclusive_kl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..cfd6145 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,12 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
+            # The baseline must not depend on the current samples, so the
+            # moving mean is read before they are folded into it.
             l_signal = l_signal - moving_mean
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 9e6eab19412c7a294ab8978fce8bee3f3e181b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:43 +0000
Subject: [PATCH 07/19] fix: refuse a model node that has no observation and no
 posterior

_validate_variational_inputs iterated over the node names instead of the
nodes, so it never raised and such a node was silently sampled from the
model inside the objective.
---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From b77980d82ba269a16fa8ba3e8fac168d099c6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:59 +0000
Subject: [PATCH 08/19] fix: keep one context stack per thread and per class

Constructions running in several threads shared one stack, so a net could pick
up the observations of another thread's observe() call.
---
 zhusuan/framework/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zhusuan/framework/utils.py b/zhusuan/framework/utils.py
index 1d9b3ef..8ecb101 100644
--- a/zhusuan/framework/utils.py
+++ b/zhusuan/framework/utils.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import division
 from collections import deque, OrderedDict
+import threading
 import warnings
 
 import tensorflow as tf
@@ -19,9 +20,11 @@ __all__ = [
 
 class Context(object):
     """
-    Context stack.
+    Context stack. Each class has its own stack in each thread.
     """
 
+    _stacks = threading.local()
+
     def __init__(self):
         super(Context, self).__init__()
 
@@ -34,9 +37,7 @@ class Context(object):
 
     @classmethod
     def get_contexts(cls):
-        if not hasattr(cls, "_contexts"):
-            cls._contexts = []
-        return cls._contexts
+        return Context._stacks.__dict__.setdefault(cls, [])
 
     @classmethod
     def get_context(cls):
-- 
2.43.0


From cd8a44fe197be2c99bd3f2594d390b1ef571bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:19 +0000
Subject: [PATCH 09/19] fix: every way of adding a node keeps the net
 consistent

deterministic() and the old-style wrappers replaced an existing node of the
same name without an error, the old-style wrappers left a node behind when its
observation was refused, and did not invalidate the cached log joint.
---
 zhusuan/framework/bn.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..17f7284 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -66,6 +66,7 @@ class StochasticTensor(TensorArithmeticMixin):
     """
 
     def __init__(self, bn, name, dist, observation=None, **kwargs):
+        cxt = None
         if bn is None:
             warnings.warn(
                 "The old-style StochasticTensor wrappers will be removed "
@@ -73,11 +74,11 @@ class StochasticTensor(TensorArithmeticMixin):
                 "the suggested way of model construction.",
                 FutureWarning)
             try:
-                bn = BayesianNet.get_context()
+                bn = cxt = BayesianNet.get_context()
             except RuntimeError:
                 pass
             else:
-                bn.nodes[name] = self
+                cxt._check_name_unused(name)
 
         self._bn = bn
         self._name = name
@@ -92,6 +93,8 @@ class StochasticTensor(TensorArithmeticMixin):
         else:
             self._observation = None
         super(StochasticTensor, self).__init__()
+        if cxt is not None:
+            cxt._add_node(name, self)
 
     def _check_observation(self, observation):
         type_msg = "Incompatible types of {}('{}') and its observation: {}"
@@ -345,6 +348,18 @@ class _BayesianNet(object):
             return ret
         return None
 
+    def _check_name_unused(self, name):
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
+
+    def _add_node(self, name, node):
+        # invalidate the log joint cache
+        if hasattr(self, "_log_joint_cache"):
+            del self._log_joint_cache
+        self._nodes[name] = node
+
     def stochastic(self, name, dist, **kwargs):
         """
         Add a stochastic node in this :class:`BayesianNet`.
@@ -358,16 +373,10 @@ class _BayesianNet(object):
 
         :return: A :class:`StochasticTensor`.
         """
-        if name in self._nodes:
-            raise ValueError(
-                "There exists a node with name '{}' in the {}. Names should "
-                "be unique.".format(name, BayesianNet.__name__))
-        # invalidate the log joint cache
-        if hasattr(self, "_log_joint_cache"):
-            del self._log_joint_cache
+        self._check_name_unused(name)
         node = StochasticTensor(
             self, name, dist, observation=self._get_observation(name), **kwargs)
-        self._nodes[name] = node
+        self._add_node(name, node)
         return node
 
     def deterministic(self, name, input_tensor):
@@ -380,8 +389,9 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        self._check_name_unused(name)
         input_tensor = tf.convert_to_tensor(input_tensor)
-        self._nodes[name] = input_tensor
+        self._add_node(name, input_tensor)
         return input_tensor
 
     def _check_name_exist(self, name, only_stochastic=False):
-- 
2.43.0


From b904ba7a3a54ef8ff8eaf49d63e7190f4e922ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:14 +0000
Subject: [PATCH 10/19] fix: FoldNormal samples are folded onto the support of
 its density

---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 779b51bd2a380c88cba3eeff6c0d093689fd70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:14 +0000
Subject: [PATCH 11/19] fix: Uniform samples never round up to maxval

---
 zhusuan/distributions/univariate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..f687a03 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -638,6 +638,10 @@ class Uniform(Distribution):
         shape = tf.concat([[n_samples], self.batch_shape], 0)
         samples = tf.random_uniform(shape, 0, 1, dtype=self.dtype) * \
             (maxval - minval) + minval
+        # Rounding can carry a sample up to `maxval`, which is not in the
+        # support [minval, maxval).
+        in_support = tf.cast(samples < maxval, self.dtype)
+        samples = samples * in_support + minval * (1 - in_support)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 28358c98057ab4a40c207b388996e79a3dc80833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:29 +0000
Subject: [PATCH 12/19] fix: samples of Gamma, InverseGamma, Beta and Dirichlet
 carry no gradients

They are declared not reparameterized, but their samples were
differentiable in the parameters, so score-function estimators
(REINFORCE, VIMCO, klpq) received a spurious pathwise term.
---
 zhusuan/distributions/multivariate.py |  4 +++-
 zhusuan/distributions/univariate.py   | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..16d519b 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,9 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        # not reparameterized: no gradients through the samples
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index f687a03..086a894 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -736,8 +736,10 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        # not reparameterized: no gradients through the samples
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -833,7 +835,8 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        # not reparameterized: no gradients through the samples
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1146,7 +1149,8 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        # not reparameterized: no gradients through the samples
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From a19c9f2d33e1f49b16a2023e132d2b1721aa8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:14 +0000
Subject: [PATCH 13/19] fix: operators with a NumPy array on the left use the
 node's tensor

NumPy broadcast itself over the StochasticTensor (or objective) and
returned an object array of Tensors instead of one Tensor.
---
 zhusuan/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..a67a027 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,10 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # like `tf.Tensor`: with a NumPy array on the left, use our operators
+    # instead of NumPy's elementwise ones
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
-- 
2.43.0


From 55b9273af9c90920bc433b4357982ac76bff4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 14/19] fix: objectives keep refusing a latent without
 posterior after the first refusal

The network was cached before it was validated, so a second use of the same
objective silently sampled the latent from the prior.
---
 zhusuan/variational/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 659c013..d440e3f 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -130,9 +130,10 @@ class VariationalObjective(TensorArithmeticMixin):
         """
         if self._meta_bn:
             if not hasattr(self, "_bn"):
-                self._bn = self._meta_bn.observe(
+                bn = self._meta_bn.observe(
                     **merge_dicts(self._v_inputs, self._observed))
-                self._validate_variational_inputs(self._bn)
+                self._validate_variational_inputs(bn)
+                self._bn = bn
             return self._bn
         else:
             return None
-- 
2.43.0


From 8ee152390ba3f09c4e157715bd197ed322e805f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 15/19] fix: log_mean_exp of all -inf is -inf, not NaN

Importance weighted objectives are then -inf where no sample has positive
density, as defined.
---
 zhusuan/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index a67a027..f1f4eb2 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -193,6 +193,8 @@ def log_mean_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    # all -inf: the result is -inf, not the NaN of (-inf) - (-inf)
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_mean(tf.exp(x - x_max), axis=axis,
                                 keepdims=True)) + x_max
     if not keepdims:
-- 
2.43.0


From ebb1b6166363120129022b18cbff19b8d1475e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 16/19] fix: VIMCO with samples of zero density

Leaving out a sample by subtracting its log weight gives NaN when that is
-inf, although the estimator is defined.
---
 zhusuan/variational/monte_carlo.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..1d0cccd 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -195,11 +195,7 @@ class ImportanceWeightedObjective(VariationalObjective):
             l_signal = tf.identity(l_signal)
 
         # compute variance reduction term
-        mean_except_signal = (
-            tf.reduce_sum(l_signal, self._axis, keepdims=True) - l_signal
-        ) / tf.cast(tf.shape(l_signal)[self._axis] - 1, l_signal.dtype)
-        x, sub_x = l_signal, mean_except_signal
-
+        x = l_signal
         n_dim = tf.rank(x)
         axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
@@ -211,9 +207,13 @@ class ImportanceWeightedObjective(VariationalObjective):
             [tf.ones([n_dim], tf.int32), [tf.shape(x)[self._axis]]], 0)
 
         x = tf.transpose(x, perm=perm)
-        sub_x = tf.transpose(sub_x, perm=perm)
         x_ex = tf.tile(tf.expand_dims(x, n_dim), multiples)
-        x_ex = x_ex - tf.matrix_diag(x) + tf.matrix_diag(sub_x)
+        # each sample is left out and replaced by the mean of the others (not
+        # by subtracting it, which gives NaN where a log weight is -inf)
+        sub_x = tf.reduce_sum(
+            tf.matrix_set_diag(x_ex, tf.zeros_like(x)), n_dim - 1
+        ) / tf.cast(tf.shape(l_signal)[self._axis] - 1, l_signal.dtype)
+        x_ex = tf.matrix_set_diag(x_ex, sub_x)
         control_variate = tf.transpose(log_mean_exp(x_ex, n_dim - 1),
                                        perm=perm)
 
-- 
2.43.0


From 290d1ef5af2f40f51c116f316e9f9c08114451e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 17/19] fix: MetaBayesianNet without args or kwargs can be
 observed

Its documented defaults (None) failed in observe().
---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..e2f3051 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = [] if args is None else copy.copy(args)
+        self._kwargs = {} if kwargs is None else copy.copy(kwargs)
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 3fd2d7d7d71460606d84c043f915279f1df2b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 18/19] fix: planar flow no longer overflows or refuses its own
 parameters when w'u is large

log(exp(w'u) + 1) overflowed for w'u > 88, which made the samples infinite;
for w'u < -17 the product w'u of the corrected parameters was rounded below -1
and the invertibility assertion failed. Use softplus, and its value itself as
w'u.
---
 zhusuan/transform.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..695c837 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -146,7 +146,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
 
     # define parameters
     with tf.name_scope('planar_flow_parameters'):
-        param_bs, param_us, param_ws = [], [], []
+        param_bs, param_us, param_ws, scalars = [], [], [], []
         for iter in range(n_iters):
             param_b = tf.Variable(tf.zeros(shape=[1], dtype=tf.float32),
                                   name='param_b_%d' % iter)
@@ -159,19 +159,22 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
                                  dtype=tf.float32),
                 name='para_w_%d' % iter)
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
+            # w'u after the invertibility trick. The softplus neither
+            # overflows nor is rounded below -1.
+            scalar = tf.nn.softplus(dot_prod) - 1
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (scalar - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
             param_us.append(param_u)
+            scalars.append(scalar)
 
     # forward and log_det_jacobian
     z = tf.reshape(input_x, [-1, d])
     for iter in range(n_iters):
-        scalar = tf.matmul(param_us[iter], param_ws[iter], name='scalar')
-        scalar = tf.reshape(scalar, [])
+        scalar = tf.reshape(scalars[iter], [])
 
         # check invertible
         invertible_check = tf.assert_greater_equal(
-- 
2.43.0


From eb349bbaddcd14101561a97906a185814eaf9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:34 +0000
Subject: [PATCH 19/19] fix: accept a Tensor step_size together with step size
 adaptation in HMC

The step size is documented as a 0-D float32 Tensor, but with
adapt_step_size the tuner built its mu with tf.constant, which raises a
TypeError for a Tensor.
---
 zhusuan/hmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 5e1649b..1c5a946 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -76,8 +76,8 @@ class StepsizeTuner:
                                               name="kappa")
             self.delta = tf.convert_to_tensor(delta, dtype=tf.float32,
                                               name="delta")
-            self.mu = tf.constant(10 * initial_stepsize, dtype=tf.float32,
-                                  name="mu")
+            self.mu = tf.convert_to_tensor(10 * initial_stepsize,
+                                           dtype=tf.float32, name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
-- 
2.43.0

