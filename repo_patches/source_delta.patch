From 3b740afe4ad32ad0ce811f8e605bc6d21342be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/12] fix: MaskedCouplingRQSpline.inverse undoes the layers
 in reverse order

---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From 4a58f2a6e767203b6e160737734cd88f3abfa0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/12] fix: flow matching log_prob evaluates the base density
 at the base point

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..db29b54 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0,
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From 978b27b383b21ecf4c4b0509895d90b09146c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 03/12] fix: HMC kinetic energy for non-diagonal and scalar
 condition_matrix

---
 src/flowMC/resource/kernel/HMC.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..2f93c8a 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,12 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
+
+        # A scalar condition_matrix stands for a multiple of the identity
+        metric = jnp.asarray(self.condition_matrix, dtype=position.dtype)
+        if metric.ndim == 0:
+            metric = metric * jnp.eye(position.shape[0], dtype=position.dtype)
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
@@ -127,19 +132,16 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
+        momentum: Float[Array, " n_dim"] = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From 5ece33c68140892ef3a6a35c0cf176892bc5130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 04/12] fix: record n_steps // thinning samples when thinning
 does not divide n_steps

---
 src/flowMC/strategy/take_steps.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..874beb3 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -137,10 +137,15 @@ class TakeSteps(Strategy):
             acceptance_buffer.data.dtype
         )
 
-        position_buffer.update_buffer(positions, self.current_position)
-        log_prob_buffer.update_buffer(log_probs, self.current_position)
-        acceptance_buffer.update_buffer(do_accepts, self.current_position)
-        self.current_position += self.n_steps // self.thinning
+        # Record as many samples as the position advances by, also when
+        # thinning does not divide n_steps
+        n_recorded = self.n_steps // self.thinning
+        position_buffer.update_buffer(positions[:, :n_recorded], self.current_position)
+        log_prob_buffer.update_buffer(log_probs[:, :n_recorded], self.current_position)
+        acceptance_buffer.update_buffer(
+            do_accepts[:, :n_recorded], self.current_position
+        )
+        self.current_position += n_recorded
         return rng_key, resources, positions[:, -1]
 
 
-- 
2.43.0


From 965fde964712a044c3afd1d5229f6694a248eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 05/12] fix: saving and loading a Buffer or a State restores
 all of it

---
 src/flowMC/resource/buffers.py | 7 +++++--
 src/flowMC/resource/states.py  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..38dde16 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,14 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
         buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
-        result.data = buffer
+        result = Buffer(str(data["name"]), buffer.shape, int(data["cursor_dim"]))
+        result.data = jnp.asarray(buffer)
+        result.cursor = int(data["cursor"])
         return result  # type: ignore
diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..1664c85 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,6 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 970239dc855f9cf4a9b5774708a137385966f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 06/12] fix: normalizing flow log_prob accounts for the
 whitening of the data

---
 src/flowMC/resource/model/nf_model/realNVP.py  | 4 +++-
 src/flowMC/resource/model/nf_model/rqSpline.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..6c05c57 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -215,8 +215,10 @@ class RealNVP(NFModel):
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         # TODO: Check whether taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
+        log_det = log_det - jnp.log(std).sum()
         log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
             y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
         )
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..2d45e0c 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -498,9 +498,10 @@ class MaskedCouplingRQSpline(NFModel):
     def log_prob(self, x: Float[Array, "n_sample n_dim"]) -> Float[Array, " n_sample"]:
         """From data space to latent space."""
         # TODO: Check if taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
-        log_det = log_det + self.base_dist.log_prob(y)
+        log_det = log_det + self.base_dist.log_prob(y) - jnp.log(std).sum()
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 4d70b912f23541e4509329798afd6a2b4acdebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 07/12] fix: RealNVP.log_prob uses the base distribution it
 samples from

---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 6c05c57..b06f608 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -219,9 +219,7 @@ class RealNVP(NFModel):
         x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
         log_det = log_det - jnp.log(std).sum()
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From caf83741d6dc01cf0f03256a7146f3d64c3ee1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/12] fix: parallel tempering carries its replicas over in
 production too

---
 src/flowMC/strategy/parallel_tempering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..fac5225 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -119,10 +119,10 @@ class ParallelTempering(Strategy):
             mean_accs = jnp.mean(do_accepts)
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
-        # Update the buffers
-        if state.data["training"]:
+        # The replicas carry on from here in the next call, in either phase
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 606479c9c36352920849ab992d7803f26372ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 09/12] fix: Optimizer uses Adam, so training leaves
 non-trainable leaves alone

---
 src/flowMC/resource/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/optimizer.py b/src/flowMC/resource/optimizer.py
index 3e4dc77..2fbdbc8 100644
--- a/src/flowMC/resource/optimizer.py
+++ b/src/flowMC/resource/optimizer.py
@@ -18,7 +18,7 @@ class Optimizer(Resource):
     ):
         self.optim = optax.chain(
             optax.clip_by_global_norm(1.0),
-            optax.adamw(learning_rate=learning_rate, b1=momentum),
+            optax.adam(learning_rate=learning_rate, b1=momentum),
         )
         self.optim_state = self.optim.init(eqx.filter(model, eqx.is_array))
 
-- 
2.43.0


From 10f023dd0822403ebf091beb3a186a40efd0f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 10/12] fix: training data selection with chains of unequal
 numbers of valid samples

---
 src/flowMC/strategy/train_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/train_model.py b/src/flowMC/strategy/train_model.py
index d04d893..5faaec9 100644
--- a/src/flowMC/strategy/train_model.py
+++ b/src/flowMC/strategy/train_model.py
@@ -63,12 +63,11 @@ class TrainModel(Strategy):
         assert isinstance(
             optimizer, Optimizer
         ), "Optimizer resource must be an optimizer"
-        n_chains = data_resource.data.shape[0]
-        n_dims = data_resource.data.shape[-1]
-        training_data = data_resource.data[
-            jnp.isfinite(data_resource.data).all(axis=-1)
-        ].reshape(n_chains, -1, n_dims)
-        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
+        # The last history_window valid samples of each chain; chains may differ
+        # in how many valid samples they have
+        valid = jnp.isfinite(data_resource.data).all(axis=-1)
+        age = jnp.cumsum(valid[:, ::-1], axis=1)[:, ::-1]
+        training_data = data_resource.data[valid & (age <= self.history_window)]
         rng_key, subkey = jax.random.split(rng_key)
         training_data = training_data[
             jax.random.choice(
-- 
2.43.0


From 76b611af6edc301cd4c367f9e55350e17a0cc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 11/12] fix: group steps evaluate the target with the caller's
 data only

---
 src/flowMC/strategy/take_steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 874beb3..7b59353 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -205,7 +205,8 @@ class TakeGroupSteps(TakeSteps):
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            # n_steps is for the kernel: the target only sees the caller's data
+            lambda x, _: logpdf(x, data),
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From 0229f4e99a9af1b8dcc7d20496959f5d5930bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 12/12] fix: training keeps the best epoch even when every loss
 exceeds 1e9

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 src/flowMC/resource/model/nf_model/base.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index db29b54..c1f4f47 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -293,7 +293,7 @@ class FlowMatchingModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
         for epoch in pbar:
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fa3029f..44f315b 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -183,7 +183,7 @@ class NFModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
         for epoch in pbar:
-- 
2.43.0

