From 725f8b0c612d1280f2e6feb9f356d780abe34669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:58 +0000
Subject: [PATCH 01/14] fix: do not propagate gradients through
 non-reparameterized gamma-based samples

---
 zhusuan/distributions/multivariate.py |  3 ++-
 zhusuan/distributions/univariate.py   | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..c8567ed 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,8 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..7c97af3 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -731,8 +731,11 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        # Not reparameterized: `tf.random_gamma` would otherwise propagate
+        # (implicit) gradients into the parameters.
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -828,7 +831,7 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1141,7 +1144,7 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From ee3bc06d15de713d19cfd2914058f9217255aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 02/14] fix: FoldNormal samples must be folded to the
 non-negative half line

---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 7c97af3..2d359b9 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 5a6bbf42d70ab40569314104df0e0e97eaa5db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:50 +0000
Subject: [PATCH 03/14] fix: enforce unique names for deterministic nodes

---
 zhusuan/framework/bn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..6c6ef42 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -380,6 +380,10 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From a35563d4ad8fc92ead757d50a6b1531e09abe6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:10 +0000
Subject: [PATCH 04/14] fix: old-style wrappers must keep node names unique and
 invalidate log joint

---
 zhusuan/framework/bn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 6c6ef42..a201f54 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -77,6 +77,14 @@ class StochasticTensor(TensorArithmeticMixin):
             except RuntimeError:
                 pass
             else:
+                if name in bn.nodes:
+                    raise ValueError(
+                        "There exists a node with name '{}' in the {}. Names "
+                        "should be unique.".format(
+                            name, BayesianNet.__name__))
+                # invalidate the log joint cache
+                if hasattr(bn, "_log_joint_cache"):
+                    del bn._log_joint_cache
                 bn.nodes[name] = self
 
         self._bn = bn
-- 
2.43.0


From 790235b4f4a9f2cd09c4eaa3790515f543c44b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:32 +0000
Subject: [PATCH 05/14] fix: forward is_continuous in the Empirical wrapper

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From d271d087e223558263b50aaf75f565c72b3a1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:12 +0000
Subject: [PATCH 06/14] fix: Implicit.log_prob must reduce group_ndims once

---
 zhusuan/legacy/distributions/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 066df50..cf682cc 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -159,7 +159,7 @@ class Implicit(Distribution):
         return tf.expand_dims(self.samples, 0)
 
     def _log_prob(self, given):
-        return tf.log(self.prob(given))
+        return tf.log(self._prob(given))
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
-- 
2.43.0


From 22eef56236e300fb36f19fee6fc4b53c6a58c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 07/14] fix: SGLD and PSGLD must compute all gradients before
 updating any latent

---
 zhusuan/sgmcmc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..b2387f8 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -189,8 +189,11 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        grads = grad_func(qs)
+        # Compute all gradients at the current state before changing it.
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad)
+                         for q, grad in zip(qs, grads)])
 
     def _update_single(self, q, grad):
         new_q = q + 0.5 * self.lr * grad + tf.random_normal(
@@ -244,8 +247,11 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        grads = grad_func(qs)
+        # Compute all gradients at the current state before changing it.
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad, aux)
+                         for q, grad, aux in zip(qs, grads, self.vs)])
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
-- 
2.43.0


From 2a5e9cfe93abed8745783184f87003fb3d9a46e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:06 +0000
Subject: [PATCH 08/14] fix: advance the SGMCMC iteration counter only after it
 has been used

---
 zhusuan/sgmcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index b2387f8..f19f04a 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,8 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        with tf.control_dependencies(list(update_ops)):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From 20a9f3062acc9627c3f6a607b296d232b1b531bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:07 +0000
Subject: [PATCH 09/14] fix: HMC must not change the step size before the
 transition has used it

---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..3ac7c90 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -376,7 +376,9 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # The step size may only change after this transition has used it.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From 1f2c4f5c9996a5ebb2b9cd5310e8e71580e70429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:30 +0000
Subject: [PATCH 10/14] fix: reject model latents that have no variational
 posterior

---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 43fa613aa529b3acb6a3e59b9b3192c0f05ac9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 11/14] fix: reinforce must read its moving mean before
 updating it

---
 zhusuan/variational/exclusive_kl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..a1b4691 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,11 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
+            # Center by the mean of the previous iterations, then update it.
             l_signal = l_signal - moving_mean
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 2dcbdf9062419aab42f989f83a663f7ad7fbc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 12/14] fix: MetaBayesianNet must be usable without args and
 kwargs

---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..4574c38 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = copy.copy(args) if args is not None else []
+        self._kwargs = copy.copy(kwargs) if kwargs is not None else {}
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 27929fcdcb978fea3b933b67791c321e8581c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 13/14] fix: planar flow must not overflow for large parameter
 products

---
 zhusuan/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..1354910 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -161,7 +161,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (tf.nn.softplus(dot_prod) - 1 - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
-- 
2.43.0


From 5ddad4c573c74a9cb5f57982b1a0e9e91ab5b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 14/14] fix: gru update of the autoregressive flow must keep a
 finite log density

---
 zhusuan/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 1354910..f562895 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -280,7 +280,8 @@ def inv_autoregressive_flow(samples, hidden, log_probs, autoregressive_nn,
         if update == 'gru':
             sigma = tf.sigmoid(s)
             z = sigma * z + (1 - sigma) * m
-            joint_probs = joint_probs - tf.reduce_sum(tf.log(sigma), axis=-1)
+            joint_probs = joint_probs - tf.reduce_sum(tf.log_sigmoid(s),
+                                                      axis=-1)
 
         if update == 'normal':
             z = s * z + m
-- 
2.43.0

