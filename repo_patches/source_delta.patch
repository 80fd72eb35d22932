From 210fa9249ffdec555d316efa30e7a9f4670af2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 01/26] fix: draw random-walk proposals from the caller's
 generator

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..704ba19 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, sum(log_p_forw), sum(log_p_backw)
 
-- 
2.43.0


From 1355b8400b1f52649a5104dfba7490e43c171673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 02/26] fix: scalar random-walk proposal returned a sum over
 scalars

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 704ba19..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 9846ea2a26fcba710e61f5abf6caa913cff3ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 03/26] fix: regime proposal dropped the outermost observations
 (and failed below four)

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From f7cde321c89d548ffe8fe7e8e554198f7fd48832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 04/26] fix: derive task generators from the generator's state
 so restored chains repeat

---
 ctbayes/ito/mcem.py       |  3 ++-
 ctbayes/ito/mcmc.py       |  3 ++-
 ctbayes/misc/streams.py   | 17 +++++++++++++++++
 ctbayes/switching/mcem.py |  3 ++-
 ctbayes/switching/mcmc.py |  5 +++--
 5 files changed, 26 insertions(+), 5 deletions(-)
 create mode 100644 ctbayes/misc/streams.py

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..ca3e41d 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -7,6 +7,7 @@ from scipy.optimize import minimize
 
 from ctbayes.ea3lib import seed
 from ctbayes.ito import mcmc
+from ctbayes.misc.streams import spawn
 
 
 class Model(NamedTuple):
@@ -82,7 +83,7 @@ def update_objective(thi: np.ndarray, zz: List[seed.Partition], mod: Model, ctrl
         return np.array(log_aug_trans) + mod.eval_log_prior(thi_prime)
 
     supp_t = [np.sort(ome.uniform(high=dt, size=ctrl.n_disc_supports)) for dt in np.diff(mod.t)]
-    new_ome = [np.random.default_rng(seed_) for seed_ in ome.bit_generator._seed_seq.spawn(len(zz))]
+    new_ome = spawn(ome, len(zz))
     _, new_zz = zip(*pool(delayed(est_log_aug_lik)(thi, zz_, mod, supp_t, ome_) for zz_, ome_ in zip(zz, new_ome)))
 
     return f_obj
diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..72245a9 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -7,6 +7,7 @@ from ctbayes.ea3lib import seed
 from ctbayes.mjplib.skeleton import sample_batch_ppp
 from ctbayes.misc.adapt import MyopicRwSampler
 from ctbayes.misc.bfactories import sample_twocoin, sample_twocoin_joint
+from ctbayes.misc.streams import spawn
 
 
 class Model(NamedTuple):
@@ -120,7 +121,7 @@ def update_sde(thi: np.ndarray, z_nil: seed.Partition, mod: Model, ctrl: Control
                pool: Parallel) -> seed.Partition:
 
     z_prime = mod.sample_aug(thi, mod.t, mod.vt, ome)
-    new_ome = [np.random.default_rng(seed_) for seed_ in ome.bit_generator._seed_seq.spawn(len(z_nil))]
+    new_ome = spawn(ome, len(z_nil))
     return list(pool(
         delayed(update_sde_bridge)(i, thi, z_nil_, z_prime_, mod, ctrl, ome_)
         for i, z_nil_, z_prime_, ome_ in zip(range(len(z_nil)), z_nil, z_prime, new_ome)))
diff --git a/ctbayes/misc/streams.py b/ctbayes/misc/streams.py
new file mode 100644
index 0000000..0cf7693
--- /dev/null
+++ b/ctbayes/misc/streams.py
@@ -0,0 +1,17 @@
+from typing import List
+
+import numpy as np
+
+
+def spawn(ome: np.random.Generator, n: int) -> List[np.random.Generator]:
+    """Derive independent generators from the state of another generator.
+
+    :param ome: parent generator, is advanced
+    :param n: number of generators
+    :return: child generators
+
+    The children depend on the state of the parent alone, so a parent restored from a copy yields the same children.
+    """
+
+    entropy = ome.integers(2 ** 32, size=4).tolist()
+    return [np.random.default_rng(seed) for seed in np.random.SeedSequence(entropy).spawn(n)]
diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..c985617 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -9,6 +9,7 @@ from ctbayes.ea3lib import seed as sde_seed
 from ctbayes.mjplib import inference as mjp_inf, skeleton as mjp_skel
 from ctbayes.switching import mcmc, types
 from ctbayes.misc.adapt import MyopicMjpSampler
+from ctbayes.misc.streams import spawn
 
 
 class Model(NamedTuple):
@@ -104,7 +105,7 @@ def update_objective(thi: np.ndarray, zz: List[sde_seed.Partition], hh: List[typ
         return np.array(log_aug_trans) + mod.eval_log_prior(thi_prime)
 
     supp_t = [[np.sort(ome.uniform(high=dt, size=ctrl.n_disc_supports)) for dt in np.diff(h.t)] for h in hh]
-    new_ome = [np.random.default_rng(seed_) for seed_ in ome.bit_generator._seed_seq.spawn(len(supp_t))]
+    new_ome = spawn(ome, len(supp_t))
     _, new_zz = zip(*pool(
         delayed(est_log_aug_lik)(thi, z, h, mod, t, ome_) for z, h, t, ome_ in zip(zz, hh, supp_t, new_ome)))
 
diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..3519b7c 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -8,6 +8,7 @@ from ctbayes.mjplib import inference as mjp_inf, skeleton as mjp_skel
 from ctbayes.switching import types
 from ctbayes.misc.adapt import MyopicMvRwSampler, MyopicMjpSampler
 from ctbayes.misc.bfactories import sample_twocoin, sample_twocoin_joint
+from ctbayes.misc.streams import spawn
 
 
 class Model(NamedTuple):
@@ -71,7 +72,7 @@ def update_params(thi_nil: np.ndarray, z: sde_seed.Partition, h: types.Anchorage
                   param_samplers: List[MyopicMvRwSampler], ome: np.random.Generator, pool: Parallel
                   ) -> (np.ndarray, sde_seed.Partition):
 
-    new_ome = [np.random.default_rng(seed_) for seed_ in ome.bit_generator._seed_seq.spawn(thi_nil.shape[0])]
+    new_ome = spawn(ome, thi_nil.shape[0])
     acc_part, thi_part, z_part = zip(*pool(
         delayed(update_params_section)(thi_nil, z, h, mod, ctrl, param_samplers, i, ome_)
         for i, ome_ in enumerate(new_ome)))
@@ -159,7 +160,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
 
-    new_ome = [np.random.default_rng(seed_) for seed_ in ome.bit_generator._seed_seq.spawn(len(z_nil_part))]
+    new_ome = spawn(ome, len(z_nil_part))
     acc, z_acc_part, h_acc_part = zip(*pool(
         delayed(update_hidden_section)(thi, lam, z_nil_, h_nil_, z_prime_, h_prime_, mod, ctrl, ome_)
         for z_nil_, z_prime_, h_nil_, h_prime_, ome_
-- 
2.43.0


From faf290fbee2b7e3ad6ba7de3be22c10f9d77acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 05/26] fix: redraw of an uncut regime path assumed another
 initial law than the cut case (and failed on zero rates)

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..a692e67 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -306,7 +306,8 @@ def mutate_partition(partition: List[Skeleton], gen: np.ndarray, ome: np.random.
                         + [sample_bridge(skel.fin_t, skel.xt[0], skel.xt[-1], gen, ome) for skel in partition[1:-1]] \
                         + [fin_skel]
     else:
-        new_partition = [sample_forwards(partition[0].fin_t, None, gen, ome)]
+        init_x = ome.integers(gen.shape[0]).item()
+        new_partition = [sample_forwards(partition[0].fin_t, init_x, gen, ome)]
 
     return new_partition
 
-- 
2.43.0


From 8b6d8ba2d1f599b5214195e6cfa15d1e7936699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 06/26] fix: re-querying a path at known times lost the record
 of stretches that reach the far level

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From b1e5419fcdd1a998d297e6e75e1dccec10176fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 07/26] fix: later batches of a Poisson stream ignored the
 points and interval already used

---
 ctbayes/mjplib/skeleton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index a692e67..0e63397 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -54,9 +54,10 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
     if n_points % batch_size != 0:
         batch_sizes = it.chain(batch_sizes, [n_points % batch_size])
 
-    ub = 0
+    ub, n_left = 0, n_points
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_left + 1 - i)
+        n_left -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From 9d7021926be7508fa944494fe24b051b025e8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 08/26] fix: regime rate statistics and likelihood ignored the
 last sojourn

---
 ctbayes/mjplib/inference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..9883ea0 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.diff(np.append(skel.t, skel.fin_t))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +57,9 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    log_moves = np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]))
+    log_stays = np.diff(np.append(skel.t, skel.fin_t)) @ np.diag(gen)[skel.xt]
+    return (log_moves + log_stays).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From ce1671e2bbfd84ff06b241ce0c0b96bdbf664ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 09/26] fix: cutting and pasting hidden states let observation
 times drift off the data

---
 ctbayes/switching/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 3519b7c..cff014c 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -226,7 +226,7 @@ def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
 
     break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
-    h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
+    h_part = [types.Anchorage(h.t[r0:r1+1], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
     return z_part, h_part
 
@@ -237,7 +237,7 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     z = sum(z_part, [])
     h = h_part[0]
     for h_ in h_part[1:]:
-        h = types.Anchorage(np.append(h.t, h_.t[1:] + h.t[-1]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
+        h = types.Anchorage(np.append(h.t, h_.t[1:]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
     return z, h
 
 
-- 
2.43.0


From 1755e2e1ea3509475ec6fcac5e23ded7c74baa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 10/26] fix: diffusion EM restarted every iteration from the
 initial parameters

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ca3e41d..e4d4003 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -34,11 +34,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From 7a427c856c8149cbf6d3c90c5b58b58d2d8e3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 11/26] fix: pre-acceptance of diffusion parameters ignored the
 likelihood

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index 72245a9..9622247 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -89,8 +89,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From d1002135ee7ffcde21f806a53559bc0cf847b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 12/26] fix: third switching parametrization multiplied over
 stretches and halved potential and slope

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..987981d 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], -1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], -1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], -1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From ed34de8903f1717aa18f47659141a574f9610288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 13/26] fix: exact bridge sampler accepted with a weight that
 can exceed one

---
 ctbayes/ea3lib/seed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..c49a141 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,15 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    t, x = denorm_rsde(np.array([0, 1]), np.zeros(2))
+    st_inf_disc = t[-1] * eval_bounds_disc(np.min(x), np.max(x))[0]
+
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + st_inf_disc:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From 7e3635f15c67c7940a90ebaaad11b6924139ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 14/26] fix: escape in path updates forgot what the failed
 flips had revealed

---
 ctbayes/ito/mcmc.py       |  9 +++++++--
 ctbayes/switching/mcmc.py | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index 9622247..32f9eb9 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -137,11 +137,16 @@ def update_sde_bridge(sector: int, thi: np.ndarray, z_nil_: seed.SeedSkeleton, z
             new_z_, = new_z
             yield success, new_z_
 
+    def coin_nil() -> Iterator[Tuple[bool, seed.Partition]]:
+        nonlocal z_nil_
+        for success, z_nil_ in coin(z_nil_):
+            yield success, z_nil_
+
     submod = (Model(mod.t[sector:(sector + 2)] - mod.t[sector], mod.vt[sector:(sector + 2)], *mod[2:]))
     weight_nil = eval_sde_weight(thi, [z_nil_], submod)
     weight_prime = eval_sde_weight(thi, [z_prime_], submod)
-    _, _, z_acc_ = sample_twocoin(weight_prime, weight_nil, coin(z_prime_), coin(z_nil_), ctrl.pr_portkey, z_nil_, ome)
-    return z_acc_
+    _, escape, z_acc_ = sample_twocoin(weight_prime, weight_nil, coin(z_prime_), coin_nil(), ctrl.pr_portkey, z_nil_, ome)
+    return z_nil_ if escape else z_acc_
 
 
 def eval_sde_weight(thi: np.ndarray, z: seed.Partition, mod: Model) -> float:
diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index cff014c..26f8918 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -181,6 +181,11 @@ def update_hidden_section(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Part
             success, new_z = flip_hidden_coins(thi, new_z, h, mod, ctrl, ome)
             yield success, new_z
 
+    def coin_nil() -> Iterator[Tuple[bool, sde_seed.Partition]]:
+        nonlocal z_nil
+        for success, z_nil in coin(z_nil, h_nil):
+            yield success, z_nil
+
     if ctrl.precoin:
         if not flip_hidden_precoin(thi, z_nil, h_nil, z_prime, h_prime, mod, ome):
             return False, z_nil, h_nil
@@ -189,11 +194,11 @@ def update_hidden_section(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Part
         weight_nil = eval_hidden_weight(thi, z_nil, h_nil, mod)
         weight_prime = eval_hidden_weight(thi, z_prime, h_prime, mod)
 
-    accept, _, z_acc = sample_twocoin(weight_prime, weight_nil, coin(z_prime, h_prime), coin(z_nil, h_nil),
-                                      ctrl.pr_portkey, z_nil, ome=ome)
+    accept, escape, z_acc = sample_twocoin(weight_prime, weight_nil, coin(z_prime, h_prime), coin_nil(),
+                                           ctrl.pr_portkey, z_nil, ome=ome)
     if accept:
         return accept, z_acc, h_prime
-    return accept, z_acc, h_nil
+    return accept, z_nil if escape else z_acc, h_nil
 
 
 def eval_hidden_weight(thi: np.ndarray, z: sde_seed.Partition, h: types.Anchorage, mod: Model) -> float:
-- 
2.43.0


From 21465dbce8c93dd668c7f257a0480167ded1a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 15/26] fix: switching models with a value transformation
 mapped anchors back twice

---
 ctbayes/switching/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..1598918 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,8 +48,8 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
-                         in zip(y_part, xt, xt[1:])] + [vt[-1]])
+        xtt = np.hstack([sample_anchors(thi, t_, yt_, fin_t_, x0, x1, ome) for (t_, yt_, fin_t_), x0, x1
+                         in zip(y_part, xt, xt[1:])] + [xt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
         vtt = dereduce(xtt)
-- 
2.43.0


From 8b51a8e8c402806f0c1467ddb30bb9ef0c06aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 16/26] fix: switching EM continued from a hidden state older
 than its regime proposal's

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index c985617..4cedb19 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -90,7 +90,7 @@ def update_particles(thi: np.ndarray, lam: np.ndarray, init_z: sde_seed.Partitio
     z, h, zz, hh = init_z, init_h, [], []
     for i in range(n_particles * ctrl.n_thin_mcmc):
         z, h = mcmc.update_hidden(thi, lam, z, h, mcmc.Model(*mod, None), mcmc.Controls(), regime_sampler, ome, pool)
-        if not i % ctrl.n_thin_mcmc:
+        if not (i + 1) % ctrl.n_thin_mcmc:
             zz.append(z), hh.append(h)
     return zz, hh
 
-- 
2.43.0


From 8ba7a3cd40f70ed49bfa4407fc6bff9c58ff108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 17/26] fix: draw the anchored side of a bounded path with its
 exact odds instead of reflecting it out of bounds

sample_raw_skeleton always drew the attained minimum and reflected half of the
paths, which is only valid for bounds symmetric around the end points: with
one-sided bounds (CIR) paths left their bounds, sample_sde raised ValueError
and the law of the path was wrong.
---
 ctbayes/ea3lib/skeleton.py | 12 +++++++-----
 ctbayes/sdelib/hitting.py  | 22 ++++++++++++++++++++++
 ctbayes/sdelib/layers.py   | 10 ++++++----
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 11571b9..98c39e4 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -66,11 +66,13 @@ def sample_raw_skeleton(fin_t: float, init_x: float, fin_x: float, bounds_x: (fl
     """
 
     lo_anchor, lo_sector, hi_sector = layers.sample_anchor(fin_t, init_x, fin_x, *bounds_x, ome=ome)
-    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
-    skel = Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
-    if ome.uniform() < .5:
-        return skel
-    return flip_skeleton(skel)
+    if lo_anchor:
+        tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
+    else:
+        (lb_inf_x, ub_inf_x), (lb_sup_x, ub_sup_x) = lo_sector, hi_sector
+        tight_t, *edges_x, hit_i = layers.sample_edges(fin_t, -init_x, -fin_x, (-ub_sup_x, -lb_sup_x), (-ub_inf_x, -lb_inf_x), ome=ome)
+        tight_x, hit_x, loose_x = [-x for x in edges_x]
+    return Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
 
 
 def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarray],
diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..c31b675 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -265,6 +265,28 @@ def sample_brownbr_esc(fin_t: float, init_x: float, fin_x: float, ue_x: float, u
             return not bool(i % 2)
 
 
+def prob_brownbr_esc(fin_t: float, init_x: float, fin_x: float, le_x: float, ue_x: float) -> float:
+    """Probability that a Brownian bridge escapes from an interval.
+
+    :param fin_t:
+    :param init_x:
+    :param fin_x:
+    :param le_x:
+    :param ue_x:
+    :return:
+    """
+
+    if min(init_x, fin_x) <= le_x or ue_x <= max(init_x, fin_x):
+        return 1
+
+    offset, width = (le_x + ue_x) / 2, ue_x - le_x
+    p = None
+    for s in series_brownbr_esc(fin_t, init_x - offset, fin_x - offset, width / 2):
+        if s == p:
+            return s
+        p = s
+
+
 def sample_bessel3br_esc(fin_t: float, init_x: float, fin_x: float, ue_x: float, ub_x: float = None, seed: float = None,
                          ome: np.random.Generator = np.random.default_rng()) -> bool:
     """
diff --git a/ctbayes/sdelib/layers.py b/ctbayes/sdelib/layers.py
index 51c7949..7012037 100755
--- a/ctbayes/sdelib/layers.py
+++ b/ctbayes/sdelib/layers.py
@@ -116,12 +116,14 @@ def sample_anchor(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.i
     in_layer, ou_layer = [compute_edges(layer_ix - i, fin_t, init_x, fin_x, lb_x, ub_x) for i in (0, 1)]
     lo_sector, hi_sector = (in_layer[0], ou_layer[0]), (ou_layer[1], in_layer[1])
 
-    # assess sector probabilities
-    p_lo = hitting.cdf_brownbr_min(lo_sector[1], fin_t, init_x, fin_x, lo_sector[0])
-    p_hi = hitting.cdf_brownbr_min(-hi_sector[0], fin_t, -fin_x, -init_x, -hi_sector[1])
+    # assess sector probabilities, counting paths which reach both sectors half towards either
+    (lb_inf_x, ub_inf_x), (lb_sup_x, ub_sup_x) = lo_sector, hi_sector
+    p_ou, p_lo, p_hi, p_in = [1 - hitting.prob_brownbr_esc(fin_t, init_x, fin_x, le_x, ue_x)
+                              for le_x, ue_x in ((lb_inf_x, ub_sup_x), (lb_inf_x, lb_sup_x),
+                                                 (ub_inf_x, ub_sup_x), (ub_inf_x, lb_sup_x))]
 
     # simulate anchor sector
-    return ome.uniform() < p_lo / (p_lo + p_hi), lo_sector, hi_sector
+    return ome.uniform() < (1 + (p_lo - p_hi) / (p_ou - p_in)) / 2, lo_sector, hi_sector
 
 
 def sample_edges(fin_t: float, init_x: float, fin_x: float,
-- 
2.43.0


From 984f0115ecf87d50acc448394b93ef1c40609323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 18/26] fix: count a proposal whose path functional is
 unbounded as rejected in skeleton.flip_poisson_coin

As the seed version does; an infinite upper bound raised ValueError from the Poisson
sampler instead of using up the attempt budget.
---
 ctbayes/ea3lib/skeleton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 98c39e4..e79c4d5 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -89,6 +89,8 @@ def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarr
 
     le_x, ue_x = min(skel.loose_x, skel.tight_x), max(skel.loose_x, skel.tight_x)
     cent_phi, le_phi, ue_phi = eval_bounds_disc(le_x, ue_x)
+    if np.isinf(ue_phi):
+        return False, skel
 
     new_skel = skel
     for ppp in skeleton.sample_batch_ppp(1, (ue_phi - cent_phi, skel.t[-1]), batch_size, ome):
-- 
2.43.0


From fc341c0e43aaf71167c9f812d6a2bdf8736523b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 19/26] fix: keep the hitting time of a minimum which rounds to
 an end point inside the horizon

A minimum drawn very close to an end value has a hitting time which rounds to that
end, and the samplers building on it stopped with an AssertionError.
---
 ctbayes/sdelib/hitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index c31b675..097c9a9 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -150,6 +150,10 @@ def sample_brownbr_min(fin_t: float, init_x: float, fin_x: float, lb_min_x: floa
     else:
         min_t = fin_t / (1 + 1 / ome.wald(1 / par3, 2 * par2))
 
+    # keep hitting times which round to an end point inside the horizon
+    eps = np.finfo(float).eps
+    min_t = min(max(min_t, eps * fin_t), (1 - eps) * fin_t)
+
     return min_t, min_x
 
 
-- 
2.43.0


From 330bdf07f6d913534fd54d311d8bd2ed56172803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 20/26] fix: decide an escape whose probability equals the
 uniform draw instead of refining it forever

The alternating series stays on the draw once it has converged, so the comparison
was never decided.
---
 ctbayes/sdelib/hitting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 097c9a9..e4b9e5a 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -264,9 +264,13 @@ def sample_brownbr_esc(fin_t: float, init_x: float, fin_x: float, ue_x: float, u
     if ub_x is not None and ub_x < ue_x:
         return False
 
+    lim = None
     for i, s in enumerate(series_brownbr_esc(fin_t, init_x, fin_x, ue_x, ub_x), 1):
         if (not i % 2 and s > seed) or (i % 2 and s < seed):
             return not bool(i % 2)
+        if s == lim:
+            return False
+        lim = s
 
 
 def prob_brownbr_esc(fin_t: float, init_x: float, fin_x: float, le_x: float, ue_x: float) -> float:
@@ -372,9 +376,13 @@ def sample_bessel3br_esc(fin_t: float, init_x: float, fin_x: float, ue_x: float,
                 i0 = i + 1
                 break
 
+    lim = None
     for i, s in enumerate(gen, i0):
         if (not i % 2 and s > seed) or (i % 2 and s < seed):
             return not bool(i % 2)
+        if s == lim:
+            return False
+        lim = s
 
 
 def series_brownbr_esc(fin_t: float,
-- 
2.43.0


From c8c7845ad0536737204790e16c51c6ee1c45ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 21/26] fix: log-concave sampler failed on level and straight
 stretches of the log density

---
 ctbayes/misc/ars.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..e5f56af 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -112,7 +112,10 @@ def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
     array([-0.5,  1. ])
     """
 
-    return np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+    bend = dfx[:-1] - dfx[1:]
+    y = (x[:-1] + x[1:]) / 2  # along a straight stretch, tangents meet everywhere
+    np.divide(np.diff(fx - x * dfx), bend, out=y, where=bend > 0)
+    return np.clip(y, x[:-1], x[1:])
 
 
 def eval_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarray, x_new: float) -> float:
@@ -178,17 +181,25 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     True
     """
 
-    # prevent over/underflows
-    offset = np.max(dfx * (y[1:] - x) + fx)
+    # highest point of each sector, the level ones included
+    top = fx + dfx * (np.where(dfx > 0, y[1:], np.where(dfx < 0, y[:-1], x)) - x)
+    level = dfx == 0
+    slope, width = np.where(level, 1, np.abs(dfx)), np.diff(y)
+    decay = np.expm1(-slope * width)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # prevent over/underflows
+    vol = np.exp(top - np.max(top)) * np.where(level, width, -decay / slope)
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    cdf = np.array([0, *np.cumsum(vol)])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
-    i = np.searchsorted(cdf / norm, z) - 1
-
-    return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
+    i = min(np.searchsorted(cdf / norm, z, side='right'), len(x)) - 1
+
+    p = (norm * z - cdf[i]) / vol[i]
+    if level[i]:
+        return y[i] + p * width[i]
+    if dfx[i] > 0:
+        return y[i + 1] + np.log1p((1 - p) * decay[i]) / slope[i]
+    return y[i] - np.log1p(p * decay[i]) / slope[i]
-- 
2.43.0


From 7c71b2f2fc28a6a206b8015ea512b40c6a7fc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 22/26] fix: hull of the log-concave sampler was truncated to
 whole numbers by whole starting points

---
 ctbayes/misc/ars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index e5f56af..ff05dbb 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -40,7 +40,7 @@ def sample(f: Callable[[Union[float, np.ndarray]], Union[float, np.ndarray]],
     if init is None:
         init = np.array(brace(f, lb, ub))
 
-    x = np.sort(init)
+    x = np.unique(np.float64(init))  # whole numbers would truncate the points added later
     fx, dfx = f(x), df(x)
 
     while max_draws > 0:
-- 
2.43.0


From a36d167c4b97471dc63ce8581f83250fd7bb5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 23/26] fix: bracing the mode failed on intervals, shifted
 bounds and wide or narrow log densities

---
 ctbayes/misc/ars.py | 55 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index ff05dbb..9ca45bb 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -1,7 +1,6 @@
 from typing import Callable, Iterator, Union
 
 import numpy as np
-from scipy.optimize import minimize
 
 
 def sample(f: Callable[[Union[float, np.ndarray]], Union[float, np.ndarray]],
@@ -82,21 +81,47 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
     True
     """
 
-    x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
-    bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
-    mode = minimize(lambda x: -f(x[0]), np.array([x0]), bounds=(bounds,)).x[0]
-
-    if np.isinf(lb):
-        linit = mode - 1
-    else:
-        linit = (mode + lb) / 2
-
-    if np.isinf(ub):
-        uinit = mode + 1
+    if np.isfinite(lb) and np.isfinite(ub):
+        x0, width = (lb + ub) / 2, (ub - lb) / 4
+    elif np.isfinite(lb):
+        x0, width = lb + 1, 1
+    elif np.isfinite(ub):
+        x0, width = ub - 1, 1
     else:
-        uinit = (mode + ub) / 2
-
-    return np.array([linit, uinit])
+        x0, width = 0, 1
+
+    # step out until the density falls or the bound is met
+    edges = []
+    for bound, step in (lb, -width), (ub, width):
+        x = x0
+        while lb < x + step < ub and f(x + step) >= f(x):
+            x, step = x + step, 2 * step
+        edges.append(x + step if lb < x + step < ub else bound)
+
+    # narrow down the mode
+    lo, hi = edges
+    for _ in range(100):
+        third = (hi - lo) / 3
+        lo, hi = (lo + third, hi) if f(lo + third) < f(hi - third) else (lo, hi - third)
+    mode = (lo + hi) / 2
+
+    # keep clear of the mode on open sides, and of the far tails
+    init = []
+    for sign, bound in (-1, lb), (1, ub):
+        near, far = 0, abs(bound - mode)
+        step = 1 if np.isinf(far) else far / 2
+        while True:
+            drop = f(mode) - f(mode + sign * step)
+            if drop > 10:
+                far = step
+            elif drop < .01 and np.isinf(bound):
+                near = step
+            else:
+                break
+            step = 2 * step if np.isinf(far) else (near + far) / 2
+        init.append(mode + sign * step)
+
+    return np.array(init)
 
 
 def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 5e7a17d6b74fe2a496e15a49c79cba2eac092ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 24/26] fix: decide the number of transitions of a bridge when
 rounding keeps its distribution below the uniform draw

---
 ctbayes/mjplib/skeleton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 0e63397..8620de2 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -196,6 +196,9 @@ def sample_bridge(fin_t: float, init_x: int, fin_x: int, gen: np.ndarray,
         n = 0
         while p[-1] < u:
             n += 1
+            if n > rate_bound * fin_t and np.logaddexp(p[-1], n * np.log(rate_bound * fin_t) - loggamma(n + 1)) == p[-1]:
+                # rounding leaves no mass beyond, settle for the last number of transitions which has some
+                return max(k for k, trans in enumerate(pow_dtrans) if trans[init_x, fin_x] > 0), pow_dtrans
             pow_dtrans.append(pow_dtrans[-1] @ dtrans)
             if pow_dtrans[-1][init_x, fin_x] == 0:
                 p.append(p[-1])
-- 
2.43.0


From d50ff5fd4f714bccbc52cb4cb92ff0610dee2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 25/26] fix: transition matrix of two regimes was NaN on long
 horizons

---
 ctbayes/mjplib/skeleton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 8620de2..36a2e57 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -390,6 +390,10 @@ def get_trans(fin_t: float, gen: np.ndarray) -> np.ndarray:
     :return:
     """
 
+    if gen.shape[0] == 2:
+        # scipy's formula for two states overflows on long horizons
+        rate = gen[0, 1] + gen[1, 0]
+        return np.identity(2) + gen * (-np.expm1(-rate * fin_t) / rate if rate > 0 else 0)
     return expm(fin_t * gen)
 
 
-- 
2.43.0


From 5c08085e8a74303496c6d9f42644b8c291121c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 26/26] fix: end points of simulated paths in a bounded state
 space ignored the odds of staying in bounds

---
 ctbayes/ito/static.py     | 7 ++++++-
 ctbayes/sdelib/hitting.py | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ito/static.py b/ctbayes/ito/static.py
index 73ed5ef..4a1da4c 100755
--- a/ctbayes/ito/static.py
+++ b/ctbayes/ito/static.py
@@ -7,6 +7,7 @@ from toolz import curry
 from ctbayes.ea3lib import seed, skeleton
 from ctbayes.ito import mcem, mcmc
 from ctbayes.misc.ars import sample as sample_logconcave
+from ctbayes.sdelib import hitting
 
 
 def assemble_model(init_thi, bounds_x, bounds_thi,
@@ -88,7 +89,11 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
             return sx_eval_drift(thi, x) - np.square(x - init_x) / (2 * fin_t)
         def df(x):
             return eval_drift(thi, x) - (x - init_x) / fin_t
-        return sample_logconcave(f, df, *bounds_x, ome=ome)
+        sampler = sample_logconcave(f, df, *bounds_x, ome=ome)
+        if np.all(np.isinf(bounds_x)):
+            return sampler
+        # path proposals are conditioned to stay in bounds, so the end point answers for the odds that they do
+        return (x for x in sampler if ome.uniform() >= hitting.prob_brownbr_esc(fin_t, init_x, x, *bounds_x))
 
     return eval_disc, eval_biased_log_lik, sample_aug, gen_normops, \
         sample_sde, maximize_posterior, sample_posterior
diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index e4b9e5a..fcb9d5c 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -286,6 +286,12 @@ def prob_brownbr_esc(fin_t: float, init_x: float, fin_x: float, le_x: float, ue_
 
     if min(init_x, fin_x) <= le_x or ue_x <= max(init_x, fin_x):
         return 1
+    if np.isinf(le_x) and np.isinf(ue_x):
+        return 0
+    if np.isinf(le_x):
+        return np.exp(-2 * (ue_x - init_x) * (ue_x - fin_x) / fin_t)
+    if np.isinf(ue_x):
+        return np.exp(-2 * (init_x - le_x) * (fin_x - le_x) / fin_t)
 
     offset, width = (le_x + ue_x) / 2, ue_x - le_x
     p = None
-- 
2.43.0

