From 0ada187abb965f0ebb9570669b172b4271f4afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:33 +0000
Subject: [PATCH 01/17] fix: DDPG critic target uses the batch's discount
 (gamma**n for n-step returns)

---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From faeacc449d20f266ee3adde980b07617d1d1c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 02/17] fix: REINFORCE weights each action by its own return
 (final reward was counted twice, the first dropped)

---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From af13b9b57f021c3dbd53487c0883ae65630b85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 03/17] fix: an evaluation run cut off by n_steps ends the
 agent's episode (reset=True on its last step, as the batch version does)

---
 pfrl/experiments/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..f8c4b44 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,9 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
+        # If this is the last step, make sure the agent observes reset=True
+        last_step = n_steps is not None and timestep >= n_steps
+        agent.observe(obs, r, done, reset or last_step)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
-- 
2.43.0


From 454198b56807a7266afafa8a2e6410138d4e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 04/17] fix: LinearDecayEpsilonGreedy with decay_steps=0 uses
 end_epsilon instead of dividing by zero

---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From a1d10e9e083f397693ee2c827d951f4d80ab1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 05/17] fix: FireResetEnv.reset returns the new episode's
 observation when firing ended the old one

---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From c78b646ec79ff0ee1fea2e7516bacb03a38d97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 06/17] fix: EpisodicLifeEnv.reset really resets when its no-op
 step ended the game

---
 pfrl/wrappers/atari_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..0b5155d 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,10 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            # the no-op itself can end the game
+            if done or info.get("needs_reset", False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 14e7b8a32234418eb7266e80e35e489ab2a90430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 07/17] fix: soft_copy_param copies integer buffers and updates
 every floating-point type

---
 pfrl/utils/copy_param.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..5854ac9 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -1,6 +1,3 @@
-import torch
-
-
 def copy_param(target_link, source_link):
     """Copy parameters of a link to another link."""
     target_link.load_state_dict(source_link.state_dict())
@@ -12,14 +9,14 @@ def soft_copy_param(target_link, source_link, tau):
     source_dict = source_link.state_dict()
     for k, target_value in target_dict.items():
         source_value = source_dict[k]
-        if source_value.dtype in [torch.float32, torch.float64, torch.float16]:
+        if source_value.dtype.is_floating_point:
             assert target_value.shape == source_value.shape
             target_value.mul_(1 - tau)
             target_value.add_(tau * source_value)
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
-            target_dict[k] = source_value
+            target_value.copy_(source_value)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 60f80b221da1794664632af64d55d3df1798359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 08/17] fix: EmpiricalNormalization normalises with the current
 variance after its buffers were loaded

---
 pfrl/nn/empirical_normalization.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..6851a98 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -40,9 +40,6 @@ class EmpiricalNormalization(nn.Module):
         )
         self.register_buffer("count", torch.tensor(0))
 
-        # cache
-        self._cached_std_inverse = None
-
     @property
     def mean(self):
         return torch.squeeze(self._mean, self.batch_axis).clone()
@@ -53,10 +50,9 @@ class EmpiricalNormalization(nn.Module):
 
     @property
     def _std_inverse(self):
-        if self._cached_std_inverse is None:
-            self._cached_std_inverse = (self._var + self.eps) ** -0.5
-
-        return self._cached_std_inverse
+        # Not cached: the buffers can be overwritten from outside, e.g. by
+        # load_state_dict
+        return (self._var + self.eps) ** -0.5
 
     def experience(self, x):
         """Learn input values without computing the output values of them"""
@@ -80,9 +76,6 @@ class EmpiricalNormalization(nn.Module):
         self._mean += rate * delta_mean
         self._var += rate * (var_x - self._var + delta_mean * (mean_x - self._mean))
 
-        # clear cache
-        self._cached_std_inverse = None
-
     def forward(self, x, update=True):
         """Normalize mean and variance of values based on emprical values.
 
-- 
2.43.0


From 935e8ff4d4b5a5f54cf936db0c5473e996f332bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 09/17] fix: PersistentRandomAccessQueue.popleft returns the
 removed element

---
 pfrl/collections/persistent_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..e7073df 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -304,7 +304,7 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
-- 
2.43.0


From 01a17f898216caa2cd27a170315bcad64964a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 10/17] fix: PersistentRandomAccessQueue.extend keeps in memory
 what an iterator yields

---
 pfrl/collections/persistent_collections.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index e7073df..c8f99fb 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
-- 
2.43.0


From c49524b3a0103a9deae063ce378596ca681cd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 11/17] fix: loading an ancestor queue keeps its newest
 elements, and works without maxlen

---
 pfrl/collections/persistent_collections.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index c8f99fb..d464ca9 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -382,16 +382,22 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
-
+        # num_data_needed is None when the queue is unbounded
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
+
+        remain = num_data_needed
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
+            if remain is not None and remain <= 0:
                 break
-            _ = reader.read_chunks(maxlen, rank_data)
+            _ = reader.read_chunks(remain, rank_data)
+            if remain is not None:
+                remain -= len(rank_data)
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From 515beea1299c50b1227fc099089bf318d5b87ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 12/17] fix: an interrupted start never leaves a partial meta
 file in a persistent queue directory

---
 pfrl/collections/persistent_collections.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index d464ca9..3a21e7f 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs replace")
 _chainerio_available = False
 
 
@@ -260,8 +260,12 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Replaced at once so that an interruption never leaves a partial
+            # meta file, from which the queue could not be opened again
+            tmp_meta_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_meta_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.replace(tmp_meta_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -340,7 +344,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    replace=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From b0ab273db135917befd0deaf8c573f8631d5c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:26 +0000
Subject: [PATCH 13/17] fix: TD3 honours n_times_update

The constructor accepted n_times_update but always configured its
ReplayUpdater with one update per interval.
---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From 7df365857c8f36d97cedef9b75eb527f6c768a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:07 +0000
Subject: [PATCH 14/17] fix: A2C, ACER and REINFORCE evaluate with the network
 in evaluation mode

Acting in evaluation mode ran the network in training mode, so evaluation
updated batch normalisation statistics and applied dropout.
---
 pfrl/agents/a2c.py       | 4 ++--
 pfrl/agents/acer.py      | 4 ++--
 pfrl/agents/reinforce.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..9eebe44 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -4,7 +4,7 @@ from logging import getLogger
 import torch
 
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 
@@ -250,7 +250,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
     def _batch_act_eval(self, batch_obs):
         assert not self.training
         statevar = self.batch_states(batch_obs, self.device, self.phi)
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             pout, _ = self.model(statevar)
             if self.act_deterministically:
                 action = mode_of_distribution(pout)
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..bf95ebc 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -7,7 +7,7 @@ from torch import nn
 
 from pfrl import agent
 from pfrl.action_value import SingleActionValue
-from pfrl.utils import clip_l2_grad_norm_, copy_param
+from pfrl.utils import clip_l2_grad_norm_, copy_param, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import detach_recurrent_state, one_step_forward
@@ -758,7 +758,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def _act_eval(self, obs):
         # Use the process-local model for acting
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             statevar = batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 (action_distrib, _, _), self.test_recurrent_states = one_step_forward(
diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index cfb3d70..1180aa6 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -6,7 +6,7 @@ import torch
 
 import pfrl
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import one_step_forward
 
@@ -155,7 +155,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
             self.train_recurrent_states = None
 
     def _act_eval(self, obs):
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             batch_obs = self.batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 action_distrib, self.test_recurrent_states = one_step_forward(
-- 
2.43.0


From 4d883b1324cd48881f218a4f76630c0aee56d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:12 +0000
Subject: [PATCH 15/17] fix: evaluating restores the mode of every submodule

Leaving the context put all submodules in training mode if the top module
was in training mode, so a frozen (eval mode) layer became active again.
---
 pfrl/utils/contexts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pfrl/utils/contexts.py b/pfrl/utils/contexts.py
index e5cd867..25f054f 100644
--- a/pfrl/utils/contexts.py
+++ b/pfrl/utils/contexts.py
@@ -4,10 +4,10 @@ from contextlib import contextmanager
 @contextmanager
 def evaluating(net):
     """Temporarily switch to evaluation mode."""
-    istrain = net.training
+    modes = [(module, module.training) for module in net.modules()]
     try:
         net.eval()
         yield net
     finally:
-        if istrain:
-            net.train()
+        for module, training in modes:
+            module.training = training
-- 
2.43.0


From fcd350d2efc94a74d377298556c40fe92110a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:06 +0000
Subject: [PATCH 16/17] fix: unnormalised importance weights of the prioritized
 episodic buffer use the number of episodes

---
 pfrl/replay_buffers/prioritized.py          | 6 ++++--
 pfrl/replay_buffers/prioritized_episodic.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized.py b/pfrl/replay_buffers/prioritized.py
index 5814d2e..e72a986 100644
--- a/pfrl/replay_buffers/prioritized.py
+++ b/pfrl/replay_buffers/prioritized.py
@@ -54,14 +54,16 @@ class PriorityWeightError(object):
 
         return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]
 
-    def weights_from_probabilities(self, probabilities, min_probability):
+    def weights_from_probabilities(self, probabilities, min_probability, n_data=None):
+        if n_data is None:
+            n_data = len(self.memory)
         if self.normalize_by_max == "batch":
             # discard global min and compute batch min
             min_probability = np.min(probabilities)
         if self.normalize_by_max:
             weights = [(p / min_probability) ** -self.beta for p in probabilities]
         else:
-            weights = [(len(self.memory) * p) ** -self.beta for p in probabilities]
+            weights = [(n_data * p) ** -self.beta for p in probabilities]
         self.beta = min(1.0, self.beta + self.beta_add)
         return weights
 
diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..0b8a3b4 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -51,7 +51,10 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         if max_len is not None:
             episodes = [random_subseq(ep, max_len) for ep in episodes]
         if self.return_sample_weights:
-            weights = self.weights_from_probabilities(probabilities, min_prob)
+            # Episodes, not transitions, are what is sampled
+            weights = self.weights_from_probabilities(
+                probabilities, min_prob, n_data=len(self.episodic_memory)
+            )
             return episodes, weights
         else:
             return episodes
-- 
2.43.0


From 616c29692459f66c89b92b4f0ffa918658aac166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:06 +0000
Subject: [PATCH 17/17] fix: TRPO uses the given batch_states in its updates

---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0

