From c8777fb94884fe77e92eec29717ccb9de85422f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:12 +0000
Subject: [PATCH 01/22] fix: reject a deterministic node whose name is already
 taken

BayesianNet.deterministic() silently replaced an existing node of the same
name (names are documented to be unique), which also left a stale log joint
when the replaced node was stochastic.
---
 zhusuan/framework/bn.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..beaf488 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -345,6 +345,12 @@ class _BayesianNet(object):
             return ret
         return None
 
+    def _check_name_unique(self, name):
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
+
     def stochastic(self, name, dist, **kwargs):
         """
         Add a stochastic node in this :class:`BayesianNet`.
@@ -358,10 +364,7 @@ class _BayesianNet(object):
 
         :return: A :class:`StochasticTensor`.
         """
-        if name in self._nodes:
-            raise ValueError(
-                "There exists a node with name '{}' in the {}. Names should "
-                "be unique.".format(name, BayesianNet.__name__))
+        self._check_name_unique(name)
         # invalidate the log joint cache
         if hasattr(self, "_log_joint_cache"):
             del self._log_joint_cache
@@ -380,6 +383,7 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        self._check_name_unique(name)
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From b1e0ee4bd674ebd868f0bed1763cc01654d5d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 02/22] fix: old-style stochastic nodes keep names unique and
 the log joint fresh

A StochasticTensor created inside 'with BayesianNet():' replaced an existing
node of the same name without an error, and did not invalidate the log joint
computed before it was added.
---
 zhusuan/framework/bn.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index beaf488..3dc8249 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -77,6 +77,8 @@ class StochasticTensor(TensorArithmeticMixin):
             except RuntimeError:
                 pass
             else:
+                bn._check_name_unique(name)
+                bn._invalidate_log_joint()
                 bn.nodes[name] = self
 
         self._bn = bn
@@ -351,6 +353,11 @@ class _BayesianNet(object):
                 "There exists a node with name '{}' in the {}. Names should "
                 "be unique.".format(name, BayesianNet.__name__))
 
+    def _invalidate_log_joint(self):
+        # invalidate the log joint cache
+        if hasattr(self, "_log_joint_cache"):
+            del self._log_joint_cache
+
     def stochastic(self, name, dist, **kwargs):
         """
         Add a stochastic node in this :class:`BayesianNet`.
@@ -365,9 +372,7 @@ class _BayesianNet(object):
         :return: A :class:`StochasticTensor`.
         """
         self._check_name_unique(name)
-        # invalidate the log joint cache
-        if hasattr(self, "_log_joint_cache"):
-            del self._log_joint_cache
+        self._invalidate_log_joint()
         node = StochasticTensor(
             self, name, dist, observation=self._get_observation(name), **kwargs)
         self._nodes[name] = node
-- 
2.43.0


From 8d574c57eaf832beb9a1cdc0dd724ffbb58562f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:52 +0000
Subject: [PATCH 03/22] fix: FoldNormal samples are folded

sample() returned draws of the unfolded normal, so about half of them lay
outside the support [0, inf).
---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 9dfe50611112a7142ae7159bc2bf41865943d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 04/22] fix: reject model nodes that are neither observed nor
 in the variational net

The check iterated over node names instead of nodes, so it never fired and the
objective silently used prior samples for the missing latent variables.
---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 06d723fd6e5f5b229a66a58e608e2a0b6ac044ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 05/22] fix: count a SGMCMC iteration after it has read the
 counter

The increment of the iteration counter was not ordered after the test that
decides whether to resample the momentum, so the period of the resampling
changed with the execution order of the graph (e.g. after about 100 runs).
---
 zhusuan/sgmcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..e5c1f6f 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,9 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        # The update reads `t`, so count this iteration only afterwards.
+        with tf.control_dependencies(list(update_ops)):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From 3678789a587156b1125246820d4f6dd987229219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:58 +0000
Subject: [PATCH 06/22] fix: SGLD and PSGLD update all latent variables from
 the same state

The assignment of one latent variable was not ordered after the gradients of
the others, so with several latent variables an iteration could mix old and
new values, depending on the execution order of the graph.
---
 zhusuan/sgmcmc.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index e5c1f6f..3997255 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -190,15 +190,20 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        return self._assign_all(
+            qs, [self._update_single(q, grad)
+                 for q, grad in zip(qs, grad_func(qs))])
 
     def _update_single(self, q, grad):
-        new_q = q + 0.5 * self.lr * grad + tf.random_normal(
+        return q + 0.5 * self.lr * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
+
+    def _assign_all(self, qs, new_qs):
+        # No latent variable may change before all updates are computed.
+        with tf.control_dependencies(new_qs):
+            update_qs = [q.assign(new_q) for q, new_q in zip(qs, new_qs)]
+        infos = [{"q": new_q} for new_q in new_qs]
+        return update_qs, infos
 
 
 class PSGLD(SGLD):
@@ -245,17 +250,15 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        return self._assign_all(
+            qs, [self._update_single(q, grad, aux)
+                 for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
             self.preconditioner_hparams, q, grad, aux)
-        new_q = q + 0.5 * self.lr * g * grad + tf.random_normal(
+        return q + 0.5 * self.lr * g * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr * g))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
 
 
 class SGHMC(SGMCMC):
-- 
2.43.0


From b1f3fd5d4b36ce5a54809c72503537ee3004f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:21 +0000
Subject: [PATCH 07/22] fix: reinforce() centers the signal by the mean of the
 previous iterations

The update of the moving mean was not ordered after its use, so (part of) the
learning signal could be centered by a mean that already includes it, which
biases the gradient estimate.
---
 zhusuan/variational/exclusive_kl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..9797e49 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,11 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
             l_signal = l_signal - moving_mean
+            # The signal must be centered before the mean is updated with it.
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 7e661a24f9991dd05ad0b6c91d8cf07d078b041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:44 +0000
Subject: [PATCH 08/22] fix: HMC keeps the step size while its adaptation is
 switched off

With `adapt_step_size` fed False from the start the step size jumped to 1, and
it was still re-initialized at iterations 1 and `mass_collect_iters`.
---
 zhusuan/hmc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..fc602c4 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -82,7 +82,8 @@ class StepsizeTuner:
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(tf.constant(initial_stepsize, dtype=tf.float32)),
+                dtype=tf.float32, name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
@@ -463,8 +464,12 @@ class HMC:
         if self.adapt_step_size is None:
             new_step_size = self.step_size
         else:
-            if_initialize_step_size = tf.logical_or(tf.equal(new_t, 1),
-                tf.equal(tf.cast(new_t, tf.int32), self.mass_collect_iters))
+            if_initialize_step_size = tf.logical_and(
+                self.step_size_tuner.adapt_step_size,
+                tf.logical_or(
+                    tf.equal(new_t, 1),
+                    tf.equal(tf.cast(new_t, tf.int32),
+                             self.mass_collect_iters)))
             def iss():
                 return self._init_step_size(current_q, current_p, mass,
                                             get_gradient, get_log_posterior)
-- 
2.43.0


From 3c2dc0dbf28699d2ef291ae0e4384a497c183693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 09/22] fix: HMC uses the unit mass while its adaptation has
 not run yet

With `adapt_mass` fed False from the start the mass became 1/0 at iteration
`mass_collect_iters`, and no proposal was accepted any more.
---
 zhusuan/hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index fc602c4..c371db1 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -120,7 +120,8 @@ class ExponentialWeightedMovingVariance:
             # mean, var: (1,...,1 data_dims)
             self.mean = [tf.Variable(tf.zeros(s), name="mean",
                                      trainable=False) for s in shape]
-            self.var = [tf.Variable(tf.zeros(s), name="var",
+            # overwritten by the first update, unit mass until then
+            self.var = [tf.Variable(tf.ones(s), name="var",
                                     trainable=False) for s in shape]
             self.decay = decay
             self.one = tf.constant(1.0, dtype=tf.float32)
-- 
2.43.0


From 46c6d76ef14a407e05801d2ab3249b2d1392cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:26 +0000
Subject: [PATCH 10/22] fix: MetaBayesianNet works without args and kwargs

Both default to None, but observe() unpacked them unconditionally.
---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..e2f3051 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = [] if args is None else copy.copy(args)
+        self._kwargs = {} if kwargs is None else copy.copy(kwargs)
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 563537e6f8efd7bbbec006e3c973c219fa0b4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:48 +0000
Subject: [PATCH 11/22] fix: log_mean_exp and log_sum_exp of infinite inputs

They gave NaN instead of -inf (inf) when the maximum is -inf (inf), e.g. when
all importance weights are zero.
---
 zhusuan/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..3ec9c20 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -167,6 +167,7 @@ def log_sum_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_sum(tf.exp(x - x_max), axis=axis,
                                keepdims=True)) + x_max
     if not keepdims:
@@ -189,6 +190,7 @@ def log_mean_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_mean(tf.exp(x - x_max), axis=axis,
                                 keepdims=True)) + x_max
     if not keepdims:
-- 
2.43.0


From baf88536f72ee5b9b1e46009a46c4485d1b50c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:13 +0000
Subject: [PATCH 12/22] fix: samples of gamma-based distributions carry no
 gradient

---
 zhusuan/distributions/multivariate.py |  3 ++-
 zhusuan/distributions/univariate.py   | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..c8567ed 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,8 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..35dcaf0 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,11 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        # gradients of `tf.random_gamma` must not propagate into the parameters
+        # since the distribution is not reparameterized.
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +832,7 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1142,7 +1145,7 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From f3b2aa41803d4254657cb810b7abaad4a888db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:07 +0000
Subject: [PATCH 13/22] fix: HMC updates the step size only after the
 trajectory has used it

With adaptation switched off the new step size did not depend on the
iteration, so the assignment raced with the leapfrog integration reading
the old value.
---
 zhusuan/hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index c371db1..8b9e535 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -378,7 +378,10 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # With adaptation off, new_step_size does not depend on the
+        # acceptance rate: wait until the trajectory has used the old one.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From c838430dcfc5f8b73a1fbe1ab1b45821c6877f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:12 +0000
Subject: [PATCH 14/22] fix: Empirical passes is_continuous on to its
 distribution

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From 88bd79506be572521ac08f14677e6b0e16def093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:53 +0000
Subject: [PATCH 15/22] fix: planar flow's w'u is computed stably

log(exp(w'u) + 1) overflows for w'u > 88, and recomputing w'u from the
rounded u could give a value below -1, tripping the invertibility
assertion although the step is invertible.
---
 zhusuan/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..86fa350 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -146,7 +146,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
 
     # define parameters
     with tf.name_scope('planar_flow_parameters'):
-        param_bs, param_us, param_ws = [], [], []
+        param_bs, param_us, param_ws, scalars = [], [], [], []
         for iter in range(n_iters):
             param_b = tf.Variable(tf.zeros(shape=[1], dtype=tf.float32),
                                   name='param_b_%d' % iter)
@@ -159,19 +159,21 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
                                  dtype=tf.float32),
                 name='para_w_%d' % iter)
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
+            # w'u after the invertibility trick
+            scalar = tf.nn.softplus(dot_prod) - 1
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (scalar - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
             param_us.append(param_u)
+            scalars.append(scalar)
 
     # forward and log_det_jacobian
     z = tf.reshape(input_x, [-1, d])
     for iter in range(n_iters):
-        scalar = tf.matmul(param_us[iter], param_ws[iter], name='scalar')
-        scalar = tf.reshape(scalar, [])
+        scalar = tf.reshape(scalars[iter], [], name='scalar')
 
         # check invertible
         invertible_check = tf.assert_greater_equal(
-- 
2.43.0


From 4b9cb1d121a815d13b7674bf8b32dd58a1bdd9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:53 +0000
Subject: [PATCH 16/22] fix: nodes on the right of Python numbers and numpy
 arrays behave as tensors

The reflected operators converted the left operand first, so 1 - node
raised for float nodes, and numpy arrays on the left produced object arrays.
---
 zhusuan/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index 3ec9c20..257ddf7 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,9 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # take precedence over numpy arrays in binary operations (as Tensors do)
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
@@ -34,19 +37,19 @@ class TensorArithmeticMixin(object):
         return tf.add(self, other)
 
     def __radd__(self, other):
-        return tf.add(other, self)
+        return other + tf.convert_to_tensor(self)
 
     def __sub__(self, other):
         return tf.subtract(self, other)
 
     def __rsub__(self, other):
-        return tf.subtract(other, self)
+        return other - tf.convert_to_tensor(self)
 
     def __mul__(self, other):
         return tf.multiply(self, other)
 
     def __rmul__(self, other):
-        return tf.multiply(other, self)
+        return other * tf.convert_to_tensor(self)
 
     def __div__(self, other):
         return tf.divide(self, other)
@@ -58,25 +61,25 @@ class TensorArithmeticMixin(object):
         return tf.truediv(self, other)
 
     def __rtruediv__(self, other):
-        return tf.truediv(other, self)
+        return other / tf.convert_to_tensor(self)
 
     def __floordiv__(self, other):
         return tf.floordiv(self, other)
 
     def __rfloordiv__(self, other):
-        return tf.floordiv(other, self)
+        return other // tf.convert_to_tensor(self)
 
     def __mod__(self, other):
         return tf.mod(self, other)
 
     def __rmod__(self, other):
-        return tf.mod(other, self)
+        return other % tf.convert_to_tensor(self)
 
     def __pow__(self, other):
         return tf.pow(self, other)
 
     def __rpow__(self, other):
-        return tf.pow(other, self)
+        return other ** tf.convert_to_tensor(self)
 
     # logical operations
     def __invert__(self):
-- 
2.43.0


From 0edc7961358af6370d34ecd7dba3bcf4a876087b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:28:30 +0000
Subject: [PATCH 17/22] fix: a refused observation leaves the net of an
 old-style node unchanged

---
 zhusuan/framework/bn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3dc8249..b502c92 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -66,6 +66,7 @@ class StochasticTensor(TensorArithmeticMixin):
     """
 
     def __init__(self, bn, name, dist, observation=None, **kwargs):
+        register = False
         if bn is None:
             warnings.warn(
                 "The old-style StochasticTensor wrappers will be removed "
@@ -78,8 +79,7 @@ class StochasticTensor(TensorArithmeticMixin):
                 pass
             else:
                 bn._check_name_unique(name)
-                bn._invalidate_log_joint()
-                bn.nodes[name] = self
+                register = True
 
         self._bn = bn
         self._name = name
@@ -93,6 +93,10 @@ class StochasticTensor(TensorArithmeticMixin):
                 self._bn._observed[name])
         else:
             self._observation = None
+        if register:
+            # only now, so that a refused observation leaves the net alone
+            bn._invalidate_log_joint()
+            bn.nodes[name] = self
         super(StochasticTensor, self).__init__()
 
     def _check_observation(self, observation):
-- 
2.43.0


From f9efe8005e6703fd5a70873a5628249530d907d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:28:30 +0000
Subject: [PATCH 18/22] fix: Implicit.log_prob groups batch axes once, not
 twice

---
 zhusuan/legacy/distributions/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 066df50..cf682cc 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -159,7 +159,7 @@ class Implicit(Distribution):
         return tf.expand_dims(self.samples, 0)
 
     def _log_prob(self, given):
-        return tf.log(self.prob(given))
+        return tf.log(self._prob(given))
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
-- 
2.43.0


From 675dbc043c536e30ee5067ae88d2624dff1653c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:28:31 +0000
Subject: [PATCH 19/22] fix: the density of Implicit away from its samples is
 0, not -inf

---
 zhusuan/legacy/distributions/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index cf682cc..94ec672 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -164,8 +164,10 @@ class Implicit(Distribution):
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
         if self.is_continuous:
-            prob = tf.cast(prob, self.param_dtype)
+            # infinite at the samples, zero (not minus infinity) elsewhere
             inf_dtype = tf.cast(inf, self.param_dtype)
-            return (2 * prob - 1) * inf_dtype
+            return tf.where(prob,
+                            tf.fill(tf.shape(prob), inf_dtype),
+                            tf.zeros(tf.shape(prob), self.param_dtype))
         else:
             return tf.cast(prob, tf.float32)
-- 
2.43.0


From d08996b4169393e5fe58af7d18c7ba92707240eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:28:31 +0000
Subject: [PATCH 20/22] fix: Implicit's density is per value, of shape
 batch_shape

---
 zhusuan/legacy/distributions/special.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 94ec672..34e80ec 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -163,6 +163,10 @@ class Implicit(Distribution):
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
+        value_ndims = self.explicit_value_shape.ndims
+        if value_ndims:
+            # a value is one event
+            prob = tf.reduce_all(prob, list(range(-value_ndims, 0)))
         if self.is_continuous:
             # infinite at the samples, zero (not minus infinity) elsewhere
             inf_dtype = tf.cast(inf, self.param_dtype)
-- 
2.43.0


From dde3f9eccbeee983a55ff1504fab43ff427a0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 21/22] fix: an objective with an uncovered model node stays
 refused when asked again

---
 zhusuan/variational/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 659c013..d440e3f 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -130,9 +130,10 @@ class VariationalObjective(TensorArithmeticMixin):
         """
         if self._meta_bn:
             if not hasattr(self, "_bn"):
-                self._bn = self._meta_bn.observe(
+                bn = self._meta_bn.observe(
                     **merge_dicts(self._v_inputs, self._observed))
-                self._validate_variational_inputs(self._bn)
+                self._validate_variational_inputs(bn)
+                self._bn = bn
             return self._bn
         else:
             return None
-- 
2.43.0


From e68d30745f59c9508e7c5447e28af1c9e2b2bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 22/22] fix: vimco accepts negative sample axes and unknown
 sample sizes

---
 zhusuan/variational/monte_carlo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..a252034 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -186,8 +186,9 @@ class ImportanceWeightedObjective(VariationalObjective):
         # check size along the sample axis
         err_msg = "VIMCO is a multi-sample gradient estimator, size along " \
                   "`axis` in the objective should be larger than 1."
-        if l_signal.get_shape()[self._axis:self._axis + 1].is_fully_defined():
-            if l_signal.get_shape()[self._axis].value < 2:
+        if l_signal.get_shape().ndims is not None:
+            n_samples = l_signal.get_shape()[self._axis].value
+            if n_samples is not None and n_samples < 2:
                 raise ValueError(err_msg)
         _assert_size_along_axis = tf.assert_greater_equal(
             tf.shape(l_signal)[self._axis], 2, message=err_msg)
@@ -201,9 +202,10 @@ class ImportanceWeightedObjective(VariationalObjective):
         x, sub_x = l_signal, mean_except_signal
 
         n_dim = tf.rank(x)
-        axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
+        axis = tf.mod(self._axis, n_dim)
+        axis_dim_mask = tf.cast(tf.one_hot(axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
-        axis_dim = tf.ones([n_dim], tf.int32) * self._axis
+        axis_dim = tf.ones([n_dim], tf.int32) * axis
         originals = tf.ones([n_dim], tf.int32) * (n_dim - 1)
         perm = tf.where(original_mask, axis_dim, tf.range(n_dim))
         perm = tf.where(axis_dim_mask, originals, perm)
-- 
2.43.0

