From 143c062cda7a4aa0f4a0ebeec265c28023c07bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 01/53] fix: PrioritizedReplayBuffer.update from an empty
 buffer must not touch the weights

---
 tianshou/data/buffer/prio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..9a37bd7 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -48,7 +48,8 @@ class PrioritizedReplayBuffer(ReplayBuffer):
 
     def update(self, buffer: ReplayBuffer) -> np.ndarray:
         indices = super().update(buffer)
-        self.init_weight(indices)
+        if len(indices) > 0:
+            self.init_weight(indices)
         return indices
 
     def add(
-- 
2.43.0


From db8c468d10097f1c48cd8bb0d42af344b8f35404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 02/53] fix: PrioritizedReplayBuffer.reset must discard the
 weights of the removed transitions

---
 tianshou/data/buffer/prio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 9a37bd7..c656dfb 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -46,6 +46,13 @@ class PrioritizedReplayBuffer(ReplayBuffer):
     def init_weight(self, index: int | np.ndarray) -> None:
         self.weight[index] = self._max_prio**self._alpha
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics)
+        # the sub-buffers of a PrioritizedReplayBufferManager don't have own weights
+        if "weight" in self.__dict__:
+            # discarded transitions must not be sampled anymore
+            self.weight = SegmentTree(self.maxsize)
+
     def update(self, buffer: ReplayBuffer) -> np.ndarray:
         indices = super().update(buffer)
         if len(indices) > 0:
-- 
2.43.0


From cc1350a66fd63cb8d6c10c4c2a4f2c3328ace8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 03/53] fix: HERReplayBuffer must recompute rewards for the new
 goal when ignore_obs_next is set

---
 tianshou/data/buffer/her.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..0368616 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,10 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = future_obs.achieved_goal[
+                None,
+                her_ep_indices,
+            ]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From 257a1128b7db06ccc47a47aede7fc1ade29cbd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 04/53] fix: ReplayBuffer.add must reject buffer_ids other than
 [0]

---
 tianshou/data/buffer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5c4451d..d243d9d 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -441,7 +441,7 @@ class ReplayBuffer:
         """True when instead of passing a batch of shape (len(data)), a batch of shape (1, len(data)) is passed."""
 
         if buffer_ids is not None:
-            if len(buffer_ids) != 1 and buffer_ids[0] != 0:
+            if len(buffer_ids) != 1 or buffer_ids[0] != 0:
                 raise ValueError(
                     "If `buffer_ids` is not None, it must be a single element with value 0 for the non-vectorized `ReplayBuffer`. "
                     f"Got {buffer_ids=}.",
-- 
2.43.0


From c0eb7aa4553a6d9633884da854f9863d7f1b9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 05/53] fix: PrioritizedVectorReplayBuffer.set_beta must change
 the beta used for its weights

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From 6fc3c74072826b320fcd919e482294244a836d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 06/53] fix: PrioritizedVectorReplayBuffer must respect
 weight_norm=False

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index c656dfb..759fee9 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -40,7 +40,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # save weight directly in this class instead of self._meta
         self.weight = SegmentTree(size)
         self.__eps = np.finfo(np.float32).eps.item()
-        self.options.update(alpha=alpha, beta=beta)
+        self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
     def init_weight(self, index: int | np.ndarray) -> None:
-- 
2.43.0


From 8d0278d6fc9a944195b7a08a185d56a928f34746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 07/53] fix: Batch addition must pair entries by key, not by
 insertion order

---
 tianshou/data/batch.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..dbb5093 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,12 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if set(self.__dict__) != set(other.__dict__):
+                raise ValueError("Only addition of Batches with the same keys is supported.")
+            for batch_key, obj in self.__dict__.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other.__dict__[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From 7353e26637ba034c9d872d2fce5951499bbcdda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 08/53] fix: BranchingDQNPolicy must use its discount factor
 and keep the batch dimension of its targets

---
 tianshou/policy/modelfree/bdq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index d7196a9..7440ac4 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -111,7 +111,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
             act = to_torch(act, dtype=torch.long, device=target_q.device)
         else:
             act = target_q.max(-1).indices.unsqueeze(-1)
-        return torch.gather(target_q, -1, act).squeeze()
+        return torch.gather(target_q, -1, act).squeeze(-1)
 
     def _compute_return(
         self,
@@ -144,7 +144,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         indices: np.ndarray,
     ) -> BatchWithReturnsProtocol:
         """Compute the 1-step return for BDQ targets."""
-        return self._compute_return(batch, buffer, indices)
+        return self._compute_return(batch, buffer, indices, gamma=self.gamma)
 
     def forward(
         self,
-- 
2.43.0


From 3794493fa5c3f13d3a90cc3e57f5014330f7c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 09/53] fix: C51Policy must bootstrap n-step targets from the
 state n steps ahead

---
 tianshou/policy/modelfree/c51.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/c51.py b/tianshou/policy/modelfree/c51.py
index 5bfdba0..cd87a53 100644
--- a/tianshou/policy/modelfree/c51.py
+++ b/tianshou/policy/modelfree/c51.py
@@ -6,7 +6,7 @@ import numpy as np
 import torch
 
 from tianshou.data import Batch, ReplayBuffer
-from tianshou.data.types import RolloutBatchProtocol
+from tianshou.data.types import BatchWithReturnsProtocol, RolloutBatchProtocol
 from tianshou.policy import DQNPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.dqn import DQNTrainingStats
@@ -95,6 +95,20 @@ class C51Policy(DQNPolicy[TC51TrainingStats], Generic[TC51TrainingStats]):
     def _target_q(self, buffer: ReplayBuffer, indices: np.ndarray) -> torch.Tensor:
         return self.support.repeat(len(indices), 1)  # shape: [bsz, num_atoms]
 
+    def process_fn(
+        self,
+        batch: RolloutBatchProtocol,
+        buffer: ReplayBuffer,
+        indices: np.ndarray,
+    ) -> BatchWithReturnsProtocol:
+        """Compute the n-step return for the support; obs_next becomes the state to bootstrap from, s_{t+n}."""
+        result = super().process_fn(batch, buffer, indices)
+        if self.n_step > 1:
+            for _ in range(self.n_step - 1):
+                indices = buffer.next(indices)
+            result.obs_next = buffer[indices].obs_next
+        return result
+
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         return super().compute_q_value((logits * self.support).sum(2), mask)
 
-- 
2.43.0


From f1fb4d95a7a5891c22b8232714f78d4589bf4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 10/53] fix: REDQPolicy with automatic temperature used
 attributes that do not exist

---
 tianshou/policy/modelfree/redq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..92f8186 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -217,8 +217,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
@@ -235,5 +235,5 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             actor_loss=self._last_actor_loss,
             critic_loss=critic_loss.item(),
             alpha=self.alpha.item() if isinstance(self.alpha, torch.Tensor) else self.alpha,
-            alpha_loss=alpha_loss,
+            alpha_loss=None if alpha_loss is None else alpha_loss.item(),
         )
-- 
2.43.0


From 675d355ab4931da637346784e428720c6015ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 11/53] fix: TRPOPolicy must restore the old parameters when
 the line search fails

---
 tianshou/policy/modelfree/trpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index e7aa5cf..6c9b4b4 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -165,7 +165,7 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                         if i < self.max_backtracks - 1:
                             step_size = step_size * self.backtrack_coeff
                         else:
-                            self._set_from_flat_params(self.actor, new_flat_params)
+                            self._set_from_flat_params(self.actor, flat_params)
                             step_size = torch.tensor([0.0])
                             warnings.warn(
                                 "Line search failed! It seems hyperparamters"
-- 
2.43.0


From e8fc5d2856a265a5aa19afdd598a0de89e9c0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 12/53] fix: conjugate gradients must not divide by zero for a
 zero gradient

---
 tianshou/policy/modelfree/npg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/policy/modelfree/npg.py b/tianshou/policy/modelfree/npg.py
index 9e04d3f..afb0db4 100644
--- a/tianshou/policy/modelfree/npg.py
+++ b/tianshou/policy/modelfree/npg.py
@@ -202,6 +202,8 @@ class NPGPolicy(A2CPolicy[TNPGTrainingStats], Generic[TNPGTrainingStats]):  # ty
         # Note: should be 'r, p = minibatch - MVP(x)', but for x=0, MVP(x)=0.
         # Change if doing warm start.
         rdotr = r.dot(r)
+        if rdotr == 0:
+            return x
         for _ in range(nsteps):
             z = self._MVP(p, flat_kl_grad)
             alpha = rdotr / p.dot(z)
-- 
2.43.0


From 686012210487ce565c475b6deb5422f3ab4baf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 13/53] fix: PSRLModel must not modify the prior it is given

---
 tianshou/policy/modelbased/psrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 8c13747..c38d55b 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -44,7 +44,7 @@ class PSRLModel:
         discount_factor: float,
         epsilon: float,
     ) -> None:
-        self.trans_count = trans_count_prior
+        self.trans_count = trans_count_prior.copy()  # updated in place by observe
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-- 
2.43.0


From 1e420ec4cb83294943dfb49630521a98cd16c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 14/53] fix: PSRLModel's reward variance must count the prior
 mean, else it becomes negative

---
 tianshou/policy/modelbased/psrl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index c38d55b..36791a2 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -48,7 +48,8 @@ class PSRLModel:
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-        self.rew_square_sum = np.zeros_like(rew_mean_prior)
+        # the prior mean has weight epsilon, like in rew_count; otherwise the variance may become negative
+        self.rew_square_sum = epsilon * rew_mean_prior**2
         self.rew_std_prior = rew_std_prior
         self.discount_factor = discount_factor
         self.rew_count = np.full(rew_mean_prior.shape, epsilon)  # no weight
-- 
2.43.0


From db1ca54983bab0cf19a4a711bb7ff0118d02ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 15/53] fix: MultiAgentPolicyManager.train must set its own
 training flag

---
 tianshou/policy/multiagent/mapolicy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..aaceade 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -281,6 +281,7 @@ class MultiAgentPolicyManager(BasePolicy):
     # No need for a similar eval function, as eval internally uses the train function.
     def train(self, mode: bool = True) -> Self:
         """Set each internal policy in training mode."""
+        self.training = mode
         for policy in self.policies.values():
             policy.train(mode)
         return self
-- 
2.43.0


From 7160bbcd51c5660ca2d931e50edb044d453cb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 16/53] fix: MultiAgentPolicyManager.forward must accept
 batches without next observations

---
 tianshou/policy/multiagent/mapolicy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index aaceade..c1255e6 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -231,7 +231,7 @@ class MultiAgentPolicyManager(BasePolicy):
             if not hasattr(tmp_batch.obs, "mask"):
                 if hasattr(tmp_batch.obs, "obs"):
                     tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
+                if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
             out = policy(
                 batch=tmp_batch,
-- 
2.43.0


From 4954c2598d0ea58dd6da7b2ab5a01d4212d656a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 17/53] fix: ICMPolicy must keep the original reward apart from
 the augmented one

---
 tianshou/policy/modelbased/icm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 9a603b7..db56c23 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -133,7 +133,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         """
         mse_loss, act_hat = self.model(batch.obs, batch.act, batch.obs_next)
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
-        batch.rew += to_numpy(mse_loss * self.reward_scale)
+        # not in place, since the original reward is restored in post_process_fn
+        batch.rew = batch.rew + to_numpy(mse_loss * self.reward_scale)
         return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
-- 
2.43.0


From d0a0d797d4170f43ee48f4a5ed193dd15901a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 18/53] fix: wrapped policies must know that they are within a
 training step

---
 tianshou/policy/modelbased/icm.py      | 10 +++++++---
 tianshou/policy/multiagent/mapolicy.py | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index db56c23..a9b8fa1 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -16,6 +16,7 @@ from tianshou.policy.base import (
     TTrainingStats,
 )
 from tianshou.utils.net.discrete import IntrinsicCuriosityModule
+from tianshou.utils.torch_utils import policy_within_training_step
 
 
 class ICMTrainingStats(TrainingStatsWrapper):
@@ -103,7 +104,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
             Please refer to :meth:`~tianshou.policy.BasePolicy.forward` for
             more detailed explanation.
         """
-        return self.policy.forward(batch, state, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.forward(batch, state, **kwargs)
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
 
@@ -135,7 +137,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
         # not in place, since the original reward is restored in post_process_fn
         batch.rew = batch.rew + to_numpy(mse_loss * self.reward_scale)
-        return self.policy.process_fn(batch, buffer, indices)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
         self,
@@ -157,7 +160,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         *args: Any,
         **kwargs: Any,
     ) -> ICMTrainingStats:
-        training_stat = self.policy.learn(batch, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            training_stat = self.policy.learn(batch, **kwargs)
         self.optim.zero_grad()
         act_hat = batch.policy.act_hat
         act = to_torch(batch.act, dtype=torch.long, device=act_hat.device)
diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index c1255e6..3318671 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -8,6 +8,7 @@ from tianshou.data.batch import BatchProtocol, IndexType
 from tianshou.data.types import ActBatchProtocol, ObsBatchProtocol, RolloutBatchProtocol
 from tianshou.policy import BasePolicy
 from tianshou.policy.base import TLearningRateScheduler, TrainingStats
+from tianshou.utils.torch_utils import policy_within_training_step
 
 try:
     from tianshou.env.pettingzoo_env import PettingZooEnv
@@ -155,7 +156,8 @@ class MultiAgentPolicyManager(BasePolicy):
                     tmp_batch.obs = tmp_batch.obs.obs
                 if hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
-            results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+            with policy_within_training_step(policy, self.is_within_training_step):
+                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
         if has_rew:  # restore from save_rew
             buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
@@ -233,11 +235,12 @@ class MultiAgentPolicyManager(BasePolicy):
                     tmp_batch.obs = tmp_batch.obs.obs
                 if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
-            out = policy(
-                batch=tmp_batch,
-                state=None if state is None else state[agent_id],
-                **kwargs,
-            )
+            with policy_within_training_step(policy, self.is_within_training_step):
+                out = policy(
+                    batch=tmp_batch,
+                    state=None if state is None else state[agent_id],
+                    **kwargs,
+                )
             act = out.act
             each_state = out.state if (hasattr(out, "state") and out.state is not None) else Batch()
             results.append((True, agent_index, out, act, each_state))
@@ -273,7 +276,8 @@ class MultiAgentPolicyManager(BasePolicy):
         for agent_id, policy in self.policies.items():
             data = batch[agent_id]
             if len(data.get_keys()) != 0:
-                train_stats = policy.learn(batch=data, **kwargs)
+                with policy_within_training_step(policy, self.is_within_training_step):
+                    train_stats = policy.learn(batch=data, **kwargs)
                 agent_id_to_stats[agent_id] = train_stats
         return MapTrainingStats(agent_id_to_stats)
 
-- 
2.43.0


From a95ba833cb498485c81ae8e3936f923d3ef3baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 19/53] fix: CQLPolicy must sample random actions between
 min_action and max_action

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 66438c7..4310a0f 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -295,7 +295,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         # CQL
         random_actions = (
             torch.FloatTensor(batch_size * self.num_repeat_actions, act.shape[-1])
-            .uniform_(-self.min_action, self.max_action)
+            .uniform_(self.min_action, self.max_action)
             .to(self.device)
         )
 
-- 
2.43.0


From 61509117d633dcecd0346bd0d425bf6b90b71b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 20/53] fix: DiscreteCRRPolicy must keep its target networks in
 evaluation mode

---
 tianshou/policy/imitation/discrete_crr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 9c54129..a83e522 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -1,6 +1,6 @@
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import torch
@@ -100,6 +100,13 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         self._beta = beta
         self._min_q_weight = min_q_weight
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target networks."""
+        self.training = mode
+        self.actor.train(mode)
+        self.critic.train(mode)
+        return self
+
     def sync_weight(self) -> None:
         self.actor_old.load_state_dict(self.actor.state_dict())
         self.critic_old.load_state_dict(self.critic.state_dict())
-- 
2.43.0


From e85c121e0950adca1dc6c07c6224fcd8bbf31df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 21/53] fix: DiscreteCRRPolicy must weight each action's
 log-likelihood by its own advantage

---
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index a83e522..85990eb 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -137,7 +137,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         act_target, _ = self.actor(batch.obs)
         dist = Categorical(logits=act_target)
         expected_policy_q = (q_t * dist.probs).sum(-1, keepdim=True)
-        advantage = qa_t - expected_policy_q
+        advantage = (qa_t - expected_policy_q).squeeze(1)
         if self._policy_improvement_mode == "binary":
             actor_loss_coef = (advantage > 0).float()
         elif self._policy_improvement_mode == "exp":
-- 
2.43.0


From c1a694f9729c55f4790e325ff0cea583b185063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 22/53] fix: CQLPolicy must take the log-sum-exp over all
 actions sampled for a state

---
 tianshou/policy/imitation/cql.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 4310a0f..99d66e5 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -311,15 +311,24 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
         random_value1, random_value2 = self.calc_random_values(tmp_obs, random_actions)
 
-        for value in [
+        (
             current_pi_value1,
             current_pi_value2,
             next_pi_value1,
             next_pi_value2,
             random_value1,
             random_value2,
-        ]:
+        ) = (
             value.reshape(batch_size, self.num_repeat_actions, 1)
+            for value in (
+                current_pi_value1,
+                current_pi_value2,
+                next_pi_value1,
+                next_pi_value2,
+                random_value1,
+                random_value2,
+            )
+        )
 
         if self.calibrated:
             returns = (
@@ -327,7 +336,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
                 .repeat(
                     (1, self.num_repeat_actions),
                 )
-                .view(-1, 1)
+                .view(batch_size, self.num_repeat_actions, 1)
             )
             random_value1 = torch.max(random_value1, returns)
             random_value2 = torch.max(random_value2, returns)
-- 
2.43.0


From a18a6f9ac14bc95b8eeb2d553b36c1772550fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 23/53] fix: Collector must honour raise_on_nan_in_buffer=False

---
 tianshou/data/collector.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..e41b761 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1031,19 +1031,6 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
             ):
                 break
 
-        # Check if we screwed up somewhere
-        if self.buffer.hasnull():
-            nan_batch = self.buffer.isnull().apply_values_transform(np.sum)
-
-            raise MalformedBufferError(
-                "NaN detected in the buffer. You can drop them with `buffer.dropnull()`. "
-                "This error is most often caused by an incorrect use of `EpisodeRolloutHooks`"
-                "together with the `n_steps` (instead of `n_episodes`) option, or by "
-                "an incorrect implementation of `StepHook`."
-                "Here an overview of the number of NaNs per field: \n"
-                f"{nan_batch}",
-            )
-
         # Step 14
         # update instance-lifetime counters, different from collect_stats
         self.collect_step += step_count
-- 
2.43.0


From 82ab256958506f65c8b5fcc28a03789c241e3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 24/53] fix: collect must be given exactly one of n_step and
 n_episode

---
 tianshou/data/collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index e41b761..651866a 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -501,9 +501,9 @@ class BaseCollector(Generic[TCollectStats], ABC):
                 f"Only one of n_step and n_episode should be set to a value larger than zero "
                 f"but got {n_step=}, {n_episode=}.",
             )
-        if n_step is None and n_episode is None:
+        if n_step and n_episode:
             raise ValueError(
-                "Exactly one of n_step and n_episode should be set but got None for both.",
+                f"Exactly one of n_step and n_episode should be set but got both: {n_step=}, {n_episode=}.",
             )
         if n_step and n_step % self.env_num != 0:
             warnings.warn(
-- 
2.43.0


From 6ed3e7bed52c299de0ac2eab08ac01788b7a3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 25/53] fix: EpisodeRolloutHookMerged must detect overlapping
 keys

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 651866a..5fb9ba4 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1487,7 +1487,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From dbef7ee0e3d1792ad89955707a7dc3656986975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 26/53] fix: entries added by episode hooks must not be given
 to sub-buffers

---
 tianshou/data/buffer/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..5ba05df 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -76,7 +76,11 @@ class ReplayBufferManager(ReplayBuffer):
 
     def _set_batch_for_children(self) -> None:
         for offset, buf in zip(self._offset, self.buffers, strict=True):
-            buf.set_batch(self._meta[offset : offset + buf.maxsize])
+            sub_batch = self._meta[offset : offset + buf.maxsize]
+            # only the reserved keys are allowed in the sub-buffers, see set_batch
+            for key in set(sub_batch.get_keys()).difference(self._reserved_keys):
+                sub_batch.pop(key)
+            buf.set_batch(sub_batch)
 
     def set_batch(self, batch: RolloutBatchProtocol) -> None:
         super().set_batch(batch)
-- 
2.43.0


From 84b94159ec5d174d94ec9e424d0b1143a878ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 27/53] fix: hidden states stored as tensors must be reset at
 the end of an episode

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 5fb9ba4..2fb868a 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1053,7 +1053,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            last_hidden_state_RH[env_ind_local_D] = 0
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From f1a5bf740f975659d73776c913cff95172d7ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 28/53] fix: AsyncCollector must support any action shape,
 policies without state and partial readiness

---
 tianshou/data/collector.py | 64 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 2fb868a..47236a3 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -21,6 +21,7 @@ from tianshou.data import (
     VectorReplayBuffer,
     to_numpy,
 )
+from tianshou.data.batch import create_value
 from tianshou.data.buffer.base import MalformedBufferError
 from tianshou.data.stats import compute_dim_to_summary_stats
 from tianshou.data.types import (
@@ -1102,7 +1103,8 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_hidden_state_in_all_envs_EH: np.ndarray | torch.Tensor | Batch | None = copy(
             self._pre_collect_hidden_state_RH,
         )
-        self._current_action_in_all_envs_EA: np.ndarray = np.empty(self.env_num)
+        # allocated at the first step, when shape and dtype of the actions are known
+        self._current_action_in_all_envs_EA: np.ndarray | None = None
         self._current_policy_in_all_envs_E: Batch | None = None
 
     def reset(
@@ -1132,7 +1134,7 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_obs_in_all_envs_EO = copy(self._pre_collect_obs_RO)
         self._current_info_in_all_envs_E = copy(self._pre_collect_info_R)
         self._current_hidden_state_in_all_envs_EH = copy(self._pre_collect_hidden_state_RH)
-        self._current_action_in_all_envs_EA = np.empty(self.env_num)
+        self._current_action_in_all_envs_EA = None
         self._current_policy_in_all_envs_E = None
         return result
 
@@ -1191,14 +1193,9 @@ class AsyncCollector(Collector[CollectStats]):
                 raise RuntimeError(
                     "Current obs is None, did you call reset or pass reset_at_collect=True?",
                 )
-            if (
-                not len(self._current_obs_in_all_envs_EO)
-                == len(self._current_action_in_all_envs_EA)
-                == self.env_num
-            ):  # major difference
+            if len(self._current_obs_in_all_envs_EO) != self.env_num:  # major difference
                 raise RuntimeError(
-                    f"{len(self._current_obs_in_all_envs_EO)=} and"
-                    f"{len(self._current_action_in_all_envs_EA)=} have to equal"
+                    f"{len(self._current_obs_in_all_envs_EO)=} has to equal"
                     f" {self.env_num=} as it tracks the current transition"
                     f"in all envs",
                 )
@@ -1213,25 +1210,40 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
+            # The arrays for all envs are created once their structure is known. Not all envs have to be ready then,
+            # e.g. if the policy is first used after collecting with random actions.
+            if self._current_action_in_all_envs_EA is None:
+                self._current_action_in_all_envs_EA = create_value(
+                    collect_batch_R.act,
+                    self.env_num,
+                    stack=False,
+                )
             self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
+            if not self._current_policy_in_all_envs_E and collect_batch_R.policy_entry:
+                self._current_policy_in_all_envs_E = create_value(
+                    collect_batch_R.policy_entry,
+                    self.env_num,
+                    stack=False,
+                )
             if self._current_policy_in_all_envs_E:
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
-            else:
-                self._current_policy_in_all_envs_E = collect_batch_R.policy_entry  # first iteration
             if collect_batch_R.hidden_state is not None:
-                if self._current_hidden_state_in_all_envs_EH is not None:
-                    # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
-                    # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
-                    # and hope that if one of the two is a tensor, the other one is as well.
-                    self._current_hidden_state_in_all_envs_EH = cast(
-                        np.ndarray | Batch,
-                        self._current_hidden_state_in_all_envs_EH,
+                if self._current_hidden_state_in_all_envs_EH is None:
+                    self._current_hidden_state_in_all_envs_EH = create_value(
+                        collect_batch_R.hidden_state,
+                        self.env_num,
+                        stack=False,
                     )
-                    self._current_hidden_state_in_all_envs_EH[
-                        ready_env_ids_R
-                    ] = collect_batch_R.hidden_state
-                else:
-                    self._current_hidden_state_in_all_envs_EH = collect_batch_R.hidden_state
+                # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
+                # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
+                # and hope that if one of the two is a tensor, the other one is as well.
+                self._current_hidden_state_in_all_envs_EH = cast(
+                    np.ndarray | Batch,
+                    self._current_hidden_state_in_all_envs_EH,
+                )
+                self._current_hidden_state_in_all_envs_EH[
+                    ready_env_ids_R
+                ] = collect_batch_R.hidden_state
 
             # step in env
             obs_next_RO, rew_R, terminated_R, truncated_R, info_R = self.env.step(
@@ -1253,7 +1265,9 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
+                    if self._current_policy_in_all_envs_E
+                    else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1284,7 +1298,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
-- 
2.43.0


From 2c1709d0b725cf7d7a7d574b7de7e809bdd5666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 29/53] fix: observations in shared memory must be returned as
 copies

---
 tianshou/env/worker/subproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 7756f6e..c2cd390 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -62,7 +62,8 @@ class ShArray:
 
     def get(self) -> np.ndarray:
         obj = self.arr.get_obj()
-        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape)  # type: ignore
+        # copy, since the next observation is going to overwrite the shared memory
+        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape).copy()  # type: ignore
 
 
 def _setup_buf(space: gym.Space, ctx: BaseContext) -> dict | tuple | ShArray:
-- 
2.43.0


From 53e577204b88524753d2d32a788a4f4c7ccef64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 30/53] fix: observations that are not arrays must be written
 to shared memory

---
 tianshou/env/worker/subproc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index c2cd390..0397189 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -85,7 +85,10 @@ def _worker(
         obs: dict | tuple | np.ndarray,
         buffer: dict | tuple | ShArray,
     ) -> None:
-        if isinstance(obs, np.ndarray) and isinstance(buffer, ShArray):
+        if isinstance(buffer, ShArray):
+            # e.g., the observations of discrete spaces are not arrays
+            if not isinstance(obs, np.ndarray):
+                obs = np.asarray(obs, dtype=buffer.dtype)
             buffer.save(obs)
         elif isinstance(obs, tuple) and isinstance(buffer, tuple):
             for o, b in zip(obs, buffer, strict=True):
-- 
2.43.0


From db4d47a1b6f80d911d532f2b019feb493d4726e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 31/53] fix: environments that are stepping must not be seeded

---
 tianshou/env/venvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index e9309f9..6de35ff 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -332,6 +332,8 @@ class BaseVectorEnv:
             which a reproducer pass to "seed".
         """
         self._assert_is_not_closed()
+        if self.is_async:
+            self._assert_id(self._wrap_id())
         seed_list: list[None] | list[int]
         if seed is None:
             seed_list = [seed] * self.env_num
-- 
2.43.0


From d527342b4a15b274ff068e7ddb67e101b755e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 32/53] fix: DummyEnvWorker.wait must not return the list of
 waiting workers itself

---
 tianshou/env/worker/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index 0ed0b03..e91b296 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -32,7 +32,7 @@ class DummyEnvWorker(EnvWorker):
         timeout: float | None = None,
     ) -> list["DummyEnvWorker"]:
         # Sequential EnvWorker objects are always ready
-        return workers
+        return list(workers)
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
-- 
2.43.0


From 5ebfe3ed6355f79156b2ae3187e2e60cd088bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 33/53] fix: PettingZooEnv must not change rewards after having
 returned them

---
 tianshou/env/pettingzoo_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/pettingzoo_env.py b/tianshou/env/pettingzoo_env.py
index 1967414..9db3c28 100644
--- a/tianshou/env/pettingzoo_env.py
+++ b/tianshou/env/pettingzoo_env.py
@@ -117,7 +117,8 @@ class PettingZooEnv(AECEnv, ABC):
 
         for agent_id, reward in self.env.rewards.items():
             self.rewards[self.agent_idx[agent_id]] = reward
-        return obs, self.rewards, term, trunc, info
+        # a copy, since the list is going to be overwritten in the next step
+        return obs, self.rewards.copy(), term, trunc, info
 
     def close(self) -> None:
         self.env.close()
-- 
2.43.0


From 8b9fd586581ebca04a2fc380cb51f4e4324d97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 34/53] fix: VectorEnvWrapper must forward the attributes of
 the wrapped environment

---
 tianshou/env/venv_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tianshou/env/venv_wrappers.py b/tianshou/env/venv_wrappers.py
index 9297dde..0a994fd 100644
--- a/tianshou/env/venv_wrappers.py
+++ b/tianshou/env/venv_wrappers.py
@@ -27,6 +27,12 @@ class VectorEnvWrapper(BaseVectorEnv):
             return getattr(self.venv, key)
         return super().__getattribute__(key)
 
+    def __getattr__(self, key: str) -> Any:
+        # attributes that are set in BaseVectorEnv.__init__, e.g., env_num or waiting_id
+        if key == "venv":  # not yet initialized (e.g., when unpickling)
+            raise AttributeError(key)
+        return getattr(self.venv, key)
+
     def get_env_attr(
         self,
         key: str,
-- 
2.43.0


From 48f9330f72afb08f50af0642a3b3fb5e7caffbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 35/53] fix: RunningMeanStd must start from the given standard
 deviation

---
 tianshou/utils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..d2d0043 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -85,7 +85,7 @@ class RunningMeanStd:
         clip_max: float | None = 10.0,
         epsilon: float = np.finfo(np.float32).eps.item(),
     ) -> None:
-        self.mean, self.var = mean, std
+        self.mean, self.var = mean, std**2
         self.clip_max = clip_max
         self.count = 0
         self.eps = epsilon
-- 
2.43.0


From 9810e7c19e47fe8e1e0b12e8030b2f98fc6a16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 36/53] fix: the indices of an episode filling a whole
 sub-buffer must be available

---
 tianshou/data/buffer/base.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index d243d9d..5e04311 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -117,7 +117,7 @@ class ReplayBuffer:
         start: int,
         stop: int,
     ) -> tuple[tuple[int, int], tuple[int, int]]:
-        """Assumes that stop < start and retrieves tuples corresponding to the two
+        """Assumes that stop <= start and retrieves tuples corresponding to the two
         slices that determine the interval within the buffer.
 
         Example:
@@ -129,17 +129,13 @@ class ReplayBuffer:
         ((4, 5), (0, 2))
 
         The buffer sliced from 4 to 5 and then from 0 to 2 will contain the transitions
-        corresponding to the provided start and stop values.
+        corresponding to the provided start and stop values. If stop equals start, these are
+        all transitions of the subbuffer (e.g., of an episode that completely fills it).
         """
-        if stop >= start:
+        if stop > start:
             raise ValueError(
-                f"Expected stop < start, but got {start=}, {stop=}. "
-                f"For stop larger than start this method should never be called, "
-                f"and stop=start should never occur. This can occur either due to an implementation error, "
-                f"or due a bad configuration of the buffer that resulted in a single episode being so long that "
-                f"it completely filled a subbuffer (of size len(buffer)/degree_of_vectorization). "
-                f"Consider either shortening the episode, increasing the size of the buffer, or decreasing the "
-                f"degree of vectorization.",
+                f"Expected stop <= start, but got {start=}, {stop=}. "
+                f"For stop larger than start this method should never be called.",
             )
         subbuffer_edges = cast(Sequence[int], self.subbuffer_edges)
 
-- 
2.43.0


From 7df3730fcff20454c490f461c70c5341a870dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 37/53] fix: BaseTrainer.run must reset the trainer as
 requested only

---
 tianshou/trainer/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..0f48019 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -1,8 +1,9 @@
 import logging
 import time
 from abc import ABC, abstractmethod
-from collections import defaultdict, deque
+from collections import defaultdict
 from collections.abc import Callable
+from contextlib import suppress
 from dataclasses import asdict
 from functools import partial
 
@@ -614,9 +615,6 @@ class BaseTrainer(ABC):
     def run(self, reset_prior_to_run: bool = True, reset_buffer: bool = False) -> InfoStats:
         """Consume iterator.
 
-        See itertools - recipes. Use functions that consume iterators at C speed
-        (feed the entire iterator into a zero-length deque).
-
         :param reset_prior_to_run: whether to reset collectors prior to run
         :param reset_buffer: only has effect if `reset_prior_to_run` is True.
             Then it will also reset the buffer. This is usually not necessary, use
@@ -626,7 +624,10 @@ class BaseTrainer(ABC):
             self.reset(reset_buffer=reset_buffer)
         try:
             self.is_run = True
-            deque(self, maxlen=0)  # feed the entire iterator into a zero-length deque
+            # Note: iterating over `self` would reset once more, since `__iter__` performs a reset
+            with suppress(StopIteration):
+                while True:
+                    next(self)
             info = gather_info(
                 start_time=self.start_time,
                 policy_update_time=self.policy_update_time,
-- 
2.43.0


From 8cd3b99135b835c978f4a19a3638db0cb38a9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 38/53] fix: tests during training must use reward_metric

---
 tianshou/trainer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 0f48019..0a66e0b 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -564,6 +564,7 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
-- 
2.43.0


From 23ad04f076383333e70360ee646dc7e9d4d92d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 39/53] fix: an early stop in training must update the best
 result consistently

---
 tianshou/trainer/base.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 0a66e0b..fdd761c 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -415,6 +415,22 @@ class BaseTrainer(ABC):
             info_stat=info_stat,
         )
 
+    def _update_best_if_improved(self, test_stat: CollectStats) -> float:
+        """Update the best result (and save the policy) if the test result's score is the best one so far.
+
+        :return: the score of the test result
+        """
+        assert test_stat.returns_stat is not None  # for mypy
+        score = self.compute_score_fn(test_stat)
+        if self.best_epoch < 0 or self.best_score < score:
+            self.best_score = score
+            self.best_epoch = self.epoch
+            self.best_reward = float(test_stat.returns_stat.mean)
+            self.best_reward_std = test_stat.returns_stat.std
+            if self.save_best_fn:
+                self.save_best_fn(self.policy)
+        return score
+
     def test_step(self) -> tuple[CollectStats, bool]:
         """Perform one testing step."""
         assert self.episode_per_test is not None
@@ -431,14 +447,7 @@ class BaseTrainer(ABC):
         )
         assert test_stat.returns_stat is not None  # for mypy
         rew, rew_std = test_stat.returns_stat.mean, test_stat.returns_stat.std
-        score = self.compute_score_fn(test_stat)
-        if self.best_epoch < 0 or self.best_score < score:
-            self.best_score = score
-            self.best_epoch = self.epoch
-            self.best_reward = float(rew)
-            self.best_reward_std = rew_std
-            if self.save_best_fn:
-                self.save_best_fn(self.policy)
+        score = self._update_best_if_improved(test_stat)
         cur_info, best_info = "", ""
         if score != rew:
             cur_info, best_info = f", score: {score: .6f}", f", best_score: {self.best_score:.6f}"
@@ -569,9 +578,7 @@ class BaseTrainer(ABC):
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
                     should_stop_training = True
-                    self.best_reward = test_result.returns_stat.mean
-                    self.best_reward_std = test_result.returns_stat.std
-                    self.best_score = self.compute_score_fn(test_result)
+                    self._update_best_if_improved(test_result)
 
         return should_stop_training
 
-- 
2.43.0


From 303d1abc796d23f5ea94723aaed67ff3bf3f1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 40/53] fix: WandbLogger must pass all intervals to its
 tensorboard logger

---
 tianshou/utils/logger/wandb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 9172bf5..31a1e6f 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -110,6 +110,7 @@ class WandbLogger(BaseLogger):
             self.train_interval,
             self.test_interval,
             self.update_interval,
+            self.info_interval,
             self.save_interval,
             self.write_flush,
         )
-- 
2.43.0


From 86dc66bf9c06d542f8c45cd199cfa0e25881f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 41/53] fix: buffer managers must keep their sub-buffers
 connected when copied or pickled

---
 tianshou/data/buffer/cached.py  |  8 ++++++++
 tianshou/data/buffer/manager.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/buffer/cached.py b/tianshou/data/buffer/cached.py
index 6c7a6e1..51552f7 100644
--- a/tianshou/data/buffer/cached.py
+++ b/tianshou/data/buffer/cached.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 
 from tianshou.data import ReplayBuffer, ReplayBufferManager
@@ -43,6 +45,12 @@ class CachedReplayBuffer(ReplayBufferManager):
         self.cached_buffers = self.buffers[1:]
         self.cached_buffer_num = cached_buffer_num
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # these may have been restored as separate copies
+        self.main_buffer = self.buffers[0]
+        self.cached_buffers = self.buffers[1:]
+
     def add(
         self,
         batch: RolloutBatchProtocol,
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 5ba05df..f8752ec 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -74,13 +74,20 @@ class ReplayBufferManager(ReplayBuffer):
         for buf in self.buffers:
             buf.reset(keep_statistics=keep_statistics)
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # the sub-buffers' data were restored as copies, make them views of the shared memory again
+        if len(self._meta.get_keys()) > 0:
+            self._set_batch_for_children()
+
     def _set_batch_for_children(self) -> None:
         for offset, buf in zip(self._offset, self.buffers, strict=True):
             sub_batch = self._meta[offset : offset + buf.maxsize]
             # only the reserved keys are allowed in the sub-buffers, see set_batch
             for key in set(sub_batch.get_keys()).difference(self._reserved_keys):
                 sub_batch.pop(key)
-            buf.set_batch(sub_batch)
+            # same data as before, so there is nothing to be restored by overriding methods
+            ReplayBuffer.set_batch(buf, sub_batch)
 
     def set_batch(self, batch: RolloutBatchProtocol) -> None:
         super().set_batch(batch)
-- 
2.43.0


From fc1ef8a4bd27aa8315ec29661e5cf482c00ea64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 42/53] fix: ReplayBuffer.from_data must set the last index

---
 tianshou/data/buffer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5e04311..7f91178 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -276,6 +276,7 @@ class ReplayBuffer:
         batch = cast(RolloutBatchProtocol, batch)
         buf.set_batch(batch)
         buf._size = size
+        buf.last_index = np.array([size - 1])
         return buf
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From f567b525d44469d1d989ac6a4bcba8f9c8dccd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 43/53] fix: arrays of strings must survive HDF5

---
 tianshou/data/utils/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index acda782..b0b5d9c 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -119,6 +119,9 @@ def to_hdf5(x: Hdf5ConvertibleType, y: h5py.Group, compression: str | None = Non
             y[k].attrs["__data_type__"] = "Tensor"
         elif isinstance(v, np.ndarray):
             try:
+                if v.dtype == object:
+                    # HDF5 would accept arrays of strings but return them as arrays of bytes
+                    raise TypeError("Object arrays have no native HDF5 equivalent.")
                 # NumPy arrays are written to datasets
                 y.create_dataset(k, data=v, compression=compression)
                 y[k].attrs["__data_type__"] = "ndarray"
-- 
2.43.0


From cccf6dacb64a0c20f2486fd842747109623794ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 44/53] fix: MovAvg must exclude NaN

---
 tianshou/utils/statistics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index d2d0043..7d1c420 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -27,7 +27,6 @@ class MovAvg:
         super().__init__()
         self.size = size
         self.cache: list[np.number] = []
-        self.banned = [np.inf, np.nan, -np.inf]
 
     def add(
         self,
@@ -43,7 +42,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From 351af92786372a8803698a7357187f22e9c38c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 45/53] fix: ActorProb must return the preprocessing network's
 new state

---
 tianshou/utils/net/continuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index a0b85ed..722bfeb 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -258,7 +258,7 @@ class ActorProb(BaseActor):
             shape = [1] * len(mu.shape)
             shape[1] = -1
             sigma = (self.sigma_param.view(shape) + torch.zeros_like(mu)).exp()
-        return (mu, sigma), state
+        return (mu, sigma), hidden
 
 
 class RecurrentActorProb(nn.Module):
-- 
2.43.0


From 5736e836ec03043dcaeb7d93bf3be8ae0c00275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 46/53] fix: single dict observations with parts of different
 shapes must be supported

---
 tianshou/utils/net/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index 243a040..3e7663c 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -593,7 +593,7 @@ def get_dict_state_decorator(
         if isinstance(obs, dict) or (isinstance(obs, Batch) and keys[0] in obs):
             if original_shape[keys[0]] == obs[keys[0]].shape:
                 # No batch dim
-                new_obs = torch.Tensor([obs[k] for k in keys]).flatten()
+                new_obs = torch.cat([torch.Tensor(obs[k]).flatten() for k in keys])
                 # new_obs = torch.Tensor([obs[k] for k in keys]).reshape(1, -1)
             else:
                 bsz = obs[keys[0]].shape[0]
-- 
2.43.0


From 9f61a81666d0658c023697ba017c294f58820e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:25 +0000
Subject: [PATCH 47/53] fix: Experiment.run must return the trainer's result

---
 tianshou/highlevel/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index c0be23d..721bc60 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -435,7 +435,7 @@ class Experiment(ToStringMixin, DataclassPPrintMixin):
                     )
 
                 log.info("Starting training")
-                world.trainer.run()
+                trainer_result = world.trainer.run()
                 if use_persistence:
                     world.logger.finalize()
                 log.info(f"Training result:\n{pformat(trainer_result)}")
-- 
2.43.0


From 2d604a3e4bef30382a813644ecc87fbe4b9031df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:25 +0000
Subject: [PATCH 48/53] fix: high-level trainers must respect
 SamplingConfig.episode_per_collect

---
 tianshou/highlevel/agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/highlevel/agent.py b/tianshou/highlevel/agent.py
index 2ad5339..2b13950 100644
--- a/tianshou/highlevel/agent.py
+++ b/tianshou/highlevel/agent.py
@@ -196,6 +196,7 @@ class OnPolicyAgentFactory(AgentFactory, ABC):
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             save_best_fn=policy_persistence.get_save_best_fn(world),
             save_checkpoint_fn=policy_persistence.get_save_checkpoint_fn(world),
             logger=world.logger,
@@ -238,6 +239,7 @@ class OffPolicyAgentFactory(AgentFactory, ABC):
             max_epoch=sampling_config.num_epochs,
             step_per_epoch=sampling_config.step_per_epoch,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             save_best_fn=policy_persistence.get_save_best_fn(world),
-- 
2.43.0


From c8697a8e4a7ba3729a02baf03f77b9605beca3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:25 +0000
Subject: [PATCH 49/53] fix: ActorFactoryDefault must use the given hidden
 sizes and activation for discrete environments

---
 tianshou/highlevel/module/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index 4a1fe5c..edec2ea 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -140,8 +140,9 @@ class ActorFactoryDefault(ActorFactory):
                     raise ValueError(self.continuous_actor_type)
         elif env_type == EnvType.DISCRETE:
             factory = ActorFactoryDiscreteNet(
-                self.DEFAULT_HIDDEN_SIZES,
+                self.hidden_sizes,
                 softmax_output=self.discrete_softmax,
+                activation=self.hidden_activation,
             )
         else:
             raise ValueError(f"{env_type} not supported")
-- 
2.43.0


From ec705cee9be59b4e794867e0e720a92985aca5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 50/53] fix: critics must still share the actor's network after
 an experiment was pickled

---
 tianshou/highlevel/module/actor.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index edec2ea..7ffd0a2 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -37,10 +37,17 @@ class ContinuousActorType(Enum):
 
 @dataclass
 class ActorFuture:
-    """Container, which, in the future, will hold an actor instance."""
+    """Container, which, in the future, will hold an actor instance.
+
+    The actor itself is transient: it is not part of the pickled state, yet objects sharing a future will continue to
+    share it after having been pickled together.
+    """
 
     actor: BaseActor | nn.Module | None = None
 
+    def __getstate__(self) -> dict:
+        return {"actor": None}
+
 
 class ActorFutureProviderProtocol(Protocol):
     def get_actor_future(self) -> ActorFuture:
@@ -269,14 +276,10 @@ class ActorFactoryTransientStorageDecorator(ActorFactory):
         self.actor_factory = actor_factory
         self._actor_future = actor_future
 
-    def __getstate__(self) -> dict:
-        d = dict(self.__dict__)
-        del d["_actor_future"]
-        return d
-
     def __setstate__(self, state: dict) -> None:
         self.__dict__ = state
-        self._actor_future = ActorFuture()
+        # states pickled by earlier versions do not contain the future
+        self.__dict__.setdefault("_actor_future", ActorFuture())
 
     def _tostring_excludes(self) -> list[str]:
         return [*super()._tostring_excludes(), "_actor_future"]
-- 
2.43.0


From 05d0eeba8b45fb24c15c7a5002ff534deaf5b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 51/53] fix: PolicyWrapperFactoryIntrinsicCuriosity must accept
 the numbers of actions of gymnasium's Discrete spaces

---
 tianshou/highlevel/params/policy_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/highlevel/params/policy_wrapper.py b/tianshou/highlevel/params/policy_wrapper.py
index 43cbfed..776f353 100644
--- a/tianshou/highlevel/params/policy_wrapper.py
+++ b/tianshou/highlevel/params/policy_wrapper.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Sequence
 from typing import Generic, TypeVar
 
+import numpy as np
 from sensai.util.string import ToStringMixin
 
 from tianshou.highlevel.env import Environments
@@ -55,13 +56,13 @@ class PolicyWrapperFactoryIntrinsicCuriosity(
     ) -> ICMPolicy:
         feature_net = self.feature_net_factory.create_intermediate_module(envs, device)
         action_dim = envs.get_action_shape()
-        if not isinstance(action_dim, int):
+        if not isinstance(action_dim, int | np.integer):
             raise ValueError(f"Environment action shape must be an integer, got {action_dim}")
         feature_dim = feature_net.output_dim
         icm_net = IntrinsicCuriosityModule(
             feature_net.module,
             feature_dim,
-            action_dim,
+            int(action_dim),
             hidden_sizes=self.hidden_sizes,
             device=device,
         )
-- 
2.43.0


From 6dab3c673b54ed665948774abc7b88ddde047e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:42 +0000
Subject: [PATCH 52/53] fix: reading logged collect stats must ignore unknown
 entries

---
 tianshou/evaluation/rliable_evaluation_hl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 2b8ff51..5a04ec3 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -45,12 +45,13 @@ class LoggedCollectStats:
         Converts SequenceSummaryStats from dict format to dataclass format and ignores fields that are not present.
         """
         field_names = [f.name for f in fields(cls)]
-        for k, v in data.items():
-            if k not in field_names:
-                data.pop(k)
-            if isinstance(v, dict):
-                data[k] = LoggedSummaryData(**v)
-        return cls(**data)
+        return cls(
+            **{
+                k: LoggedSummaryData(**v) if isinstance(v, dict) else v
+                for k, v in data.items()
+                if k in field_names
+            },
+        )
 
 
 @dataclass
-- 
2.43.0


From f8a067ff11f7c1094bc84ea1c36e6694b38d2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:16 +0000
Subject: [PATCH 53/53] fix: resetting dummy and ray vector environments with a
 seed must seed the action spaces

---
 tianshou/env/worker/dummy.py | 2 ++
 tianshou/env/worker/ray.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index e91b296..715f7c7 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -36,6 +36,8 @@ class DummyEnvWorker(EnvWorker):
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
+            if "seed" in kwargs:
+                super().seed(kwargs["seed"])
             self.result = self.env.reset(**kwargs)
         else:
             self.result = self.env.step(action)  # type: ignore
diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 76b8422..24b5ad8 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -57,6 +57,8 @@ class RayEnvWorker(EnvWorker):
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         # self.result is actually a handle
         if action is None:
+            if "seed" in kwargs:
+                super().seed(kwargs["seed"])
             self.result = self.env.reset.remote(**kwargs)
         else:
             self.result = self.env.step.remote(action)
-- 
2.43.0

