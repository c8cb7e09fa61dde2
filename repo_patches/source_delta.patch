From e6804709ceca23fbcf20d224437ca364039fa27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 01/40] fix: global_variance ignored all but the first local
 device

The squared deviations were summed on each device but never across the
devices of a process, so the result was the partial sum of device 0.
---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..02294d4 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,7 +43,7 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
-- 
2.43.0


From 380da9706b2b2a075a83a1f1445d717b73ea45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/40] fix: global_covariance did not subtract the product of
 the means

The documented (connected) covariance subtracts the outer product of the
means; only the raw second moment was returned.
---
 jVMC/mpi_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 02294d4..30e886f 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -240,7 +240,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(jnp.conj(mean), mean)
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 08cc99e323ddf74e5a9897b07ee8572c59325edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 03/40] fix: products of operator prefactors could not take
 arguments

_prod_fun is bound with keyword f1/f2, so any positional argument (e.g. the
time) collided with them and raised a TypeError.
---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..924a0ca 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From 32b7afec0fedef31e847611b5d18b1c7e58d3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 04/40] fix: BranchFreeOperator failed on two-dimensional
 configurations

Configurations are flattened before an operator string is applied, but the
fermion mask was built from the last axis only.
---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 924a0ca..265f573 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -449,7 +449,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From 693306f6edd4fcb69d5d49f53e4add940d4a1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 05/40] fix: get_estimator_function failed for operators
 without argument preprocessor

---
 jVMC/operator/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..18a0d7c 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -302,6 +302,8 @@ class Operator(metaclass=abc.ABCMeta):
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
+        else:
+            op_fun_args = args
         net_fun = psi.net.apply
 
         def op_estimator(params, config):
-- 
2.43.0


From 074075e85a191de7687eddf9cbb0d46f166c950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/40] fix: local estimators of non-logarithmic ansatzes
 missed the logarithm

For logarithmic=False the plain amplitude was used as its own logarithm when
no amplitudes were passed, and in the last incomplete batch.
---
 jVMC/operator/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 18a0d7c..53ccf89 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -268,8 +270,11 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
             sp, _ = self.get_s_primes(batch, *args)
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From 2526ec902c084e0455503b7664c89b1d33584fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 07/40] fix: estimator function of non-logarithmic ansatzes
 missed the logarithm

---
 jVMC/operator/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 53ccf89..bc79db6 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -310,6 +310,8 @@ class Operator(metaclass=abc.ABCMeta):
         else:
             op_fun_args = args
         net_fun = psi.net.apply
+        if not psi.logarithmic:
+            net_fun = lambda *a: jnp.log(psi.net.apply(*a))
 
         def op_estimator(params, config):
 
-- 
2.43.0


From 795016c8fb511e08b7e2150580ac82146ef7b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 08/40] fix: parallel evaluation of many operator prefactors
 indexed out of range

With 50 or more prefactors and several MPI processes the slice boundaries
were off by one (and out of range when processes had no work), so the
evaluation raised an IndexError.
---
 jVMC/operator/branch_free.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 265f573..810b3e1 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -422,11 +422,12 @@ class BranchFreeOperator(Operator):
                 commSize = comm.Get_size()
                 rank = comm.Get_rank()
                 nEls = (N + commSize - 1) // commSize
-                myStart = nEls * rank
+                myStart = min(nEls * rank, N)
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                # Each process covers the operator strings from its first prefactor up to the next process' first one
+                firstIdx = [0] + [prefactor[nEls * r][0] if nEls * r < N else len(init) for r in range(1,commSize)]
+                lastIdx = firstIdx[1:] + [len(init)]
 
                 res = init[firstIdx[rank]:lastIdx[rank]]
 
-- 
2.43.0


From 5ac744e95078a0a8c382056a4a4a42cfef48a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 09/40] fix: ExactSampler counted basis states twice on many
 devices

Only the last device absorbed the rounding excess; when it exceeded one
device's share, padding states of the other devices kept their weight.
---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..799d178 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -417,11 +417,11 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        maxStatesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        # Trailing devices can hold fewer states, or none at all
+        self.numStatesPerDevice = jnp.clip(myNumStates - jnp.arange(deviceCount) * maxStatesPerDevice, 0, maxStatesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * maxStatesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 087baef297cf65999c53d1540425680fadbb8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 10/40] fix: sample(multipleOf=...) returned fewer samples than
 requested

The number of blocks was used as the number of samples per chain, so fewer
samples than requested (and reported) were drawn whenever the block was
larger than the number of chains.
---
 jVMC/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 799d178..d5c005f 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -232,6 +232,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples *= multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -264,7 +265,9 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        blockSize = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=blockSize)
+        numSamples *= blockSize // self.numChains
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 5404a30d2125582a1a397004e628c725ddb602c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 11/40] fix: propose_POVM_outcome left the outcome range and
 failed to trace

The modulo bound to the random shift only, so outcomes above 3 and
non-symmetric proposals were produced, and the shape of the update did not
match a single site.
---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index d5c005f..cb1154e 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + 1 + random.randint(key, (1,), 0, 3)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 3e840188a7c0ff0e16b93c775b7b5ace484a6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 12/40] fix: propose_spin_flip_zeroMag failed on
 one-dimensional configurations

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index cb1154e..f0cddf4 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -46,8 +46,8 @@ def propose_spin_flip_zeroMag(key, s, info):
 
     # can't use jnp.where because then it is not jit-compilable
     # find indices based on cumsum
-    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
-    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
+    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.size // 2 + 1)
+    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.size // 2 + 1)
 
     id_up = jnp.searchsorted(jnp.cumsum(s), bound_up)
     id_down = jnp.searchsorted(jnp.cumsum(1 - s), bound_down)
@@ -55,8 +55,8 @@ def propose_spin_flip_zeroMag(key, s, info):
     idx_up = jnp.unravel_index(id_up, s.shape)
     idx_down = jnp.unravel_index(id_down, s.shape)
 
-    s = s.at[idx_up[0], idx_up[1]].set(0)
-    s = s.at[idx_down[0], idx_down[1]].set(1)
+    s = s.at[idx_up].set(0)
+    s = s.at[idx_down].set(1)
 
     # On average, do a global spin flip every 30 updates to
     # reflect Z_2 symmetry
-- 
2.43.0


From 95f1bc6652d522a33ffcd7cdc2c762d571cc3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 13/40] fix: set_random_key gave all MPI processes the same
 random stream

The constructor derives a separate key per process; set_random_key did not,
so after a call all processes drew identical samples.
---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index f0cddf4..8ab7281 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,7 +166,8 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
-        self.key = jax.random.split(key, global_defs.device_count())
+        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]
+        self.key = jax.random.split(self.key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
         """Return last number of samples.
-- 
2.43.0


From 664d94acb595f131239271f75e4b66f1a6fd0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:50 +0000
Subject: [PATCH 14/40] fix: init_net failed for two-network descriptions

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..e62f67e 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From cc26e027119d0f944763c021b5e4c7eee954fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 15/40] fix: init_net modified the given description

Activation function names were replaced in place, so the same description
could not be used a second time.
---
 jVMC/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index e62f67e..ce091bc 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -14,6 +14,7 @@ import jVMC.nets.activation_functions as act_funs
 import jVMC.util.symmetries as sym
 
 import collections
+import copy
 
 
 def get_iterable(x):
@@ -46,6 +47,9 @@ def init_net(descr, dims, seed=0):
 
         return netTypes[descr["type"]](**descr["parameters"])
 
+    # Leave the given description unchanged
+    descr = copy.deepcopy(descr)
+
     if "actFun" in descr["net1"]["parameters"]:
         descr["net1"]["parameters"]["actFun"] = get_activation_functions(descr["net1"]["parameters"]["actFun"])
 
-- 
2.43.0


From 8688aab0edac4dc3e82638c3d57643a7744c6e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 16/40] fix: mean_and_grad failed with more than one local
 device

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 2b8c12853d4d76c04809b305cf18fb50a80afae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 17/40] fix: two-dimensional POVM observables failed with more
 than one local device

---
 jVMC/operator/povm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..7a37ad1 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,13 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            devDim = states.shape[0]
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(devDim, -1, self.system_data["L"]**2)).reshape(devDim, -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(devDim, -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(devDim, -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From 1ff4200c6c2403e1705c14c7252e3098225c3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 18/40] fix: measure_povm reported the variance instead of the
 standard error

The Monte Carlo error is the square root of the variance over the number of
samples, and correlators have to use their own variance.
---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 7a37ad1..f4259cf 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From 281beb81beec6fa7ffd607aa29d447a043b377a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 19/40] fix: ansatzes with real parameters could be classified
 as holomorphic

A vanishing gradient at the first configuration satisfies the Cauchy-Riemann
check, so gradients of twice the number of parameters were returned.
---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 36f4567749ac8dba4c9ddbbf653980cafb740751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 20/40] fix: set_parameters rejected parameter trees given as
 plain dictionaries

Recent flax versions return plain dictionaries, so psi.params could not be
passed back to set_parameters.
---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index d9fea14..78155b5 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -419,7 +419,7 @@ class NQS:
             raise RuntimeError("Error in NQS.set_parameters(): Network not initialized. Evaluate net on example input for initialization.")
 
         # Update model parameters
-        if isinstance(P, flax.core.frozen_dict.FrozenDict):
+        if isinstance(P, (dict, flax.core.frozen_dict.FrozenDict)):
             self.params = P
         else:
             self.params = self._param_unflatten(P)
-- 
2.43.0


From 1ea26f30f4d1139f389f3a9d77873b2cb6d3ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 21/40] fix: set_pmap_devices did not update the default device

---
 jVMC/global_defs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/global_defs.py b/jVMC/global_defs.py
index 2d49c42..097af94 100644
--- a/jVMC/global_defs.py
+++ b/jVMC/global_defs.py
@@ -40,6 +40,7 @@ def set_pmap_devices(devices):
     global myPmapDevices
     global myDeviceCount
     global pmap_for_my_devices
+    global myDevice
     myPmapDevices = devices
     myDeviceCount = len(myPmapDevices)
     pmap_for_my_devices = partial(jax.pmap, devices=myPmapDevices)
-- 
2.43.0


From 4eb7bb110a3acb7db53709c6f2eddd3db374141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 22/40] fix: OutputManager.set_group could not return to the
 root group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..9c37d21 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From 1df2f33f25a440a054f48cf3a4507c249f02063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 23/40] fix: get_sr_equation always raised a TypeError

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..f8c9a02 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 729896b125f8b10d29d27e0ad154b7f87299e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 24/40] fix: POVMOperator lost terms when descriptions were
 shared

The internal id was written into the caller's dictionary, so adding it to a
second operator could make two terms of the first one share an id and one
of them was dropped.
---
 jVMC/operator/povm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index f4259cf..0457458 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -356,7 +356,8 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
+        # Copy, because the same description can be added to several operators
+        opDescr = {**opDescr, "id": id}
         self.ops.append(opDescr)
         self.compiled = False
 
-- 
2.43.0


From 41d6b1ef19f930d3d3f27fc20ce43253c3ddaf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 25/40] fix: AdaptiveHeun exceeded maxStep when the initial
 time step was larger

---
 jVMC/util/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 1edce22..ef828f0 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -136,7 +136,7 @@ class AdaptiveHeun:
 
         fe = 0.5
 
-        dt = self.dt
+        dt = min(self.dt, self.maxStep)
 
         yInitial = y.copy()
 
-- 
2.43.0


From d8e8e796d3729f3adf1af518b10864f9be3fad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 26/40] fix: AdaptiveHeun modified arrays already passed to the
 right hand side

With numpy arrays the in-place updates changed the stored derivatives of a
right hand side that returns (a view of) its argument.
---
 jVMC/util/stepper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index ef828f0..f557b9f 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -144,17 +144,17 @@ class AdaptiveHeun:
 
             y = yInitial.copy()
             k0 = f(y, t, **rhsArgs, intStep=0)
-            y += dt * k0
+            y = y + dt * k0
             k1 = f(y, t + dt, **rhsArgs, intStep=1)
             dy0 = 0.5 * dt * (k0 + k1)
 
             # now with half step size
-            y -= 0.5 * dt * k0
+            y = y - 0.5 * dt * k0
             k10 = f(y, t + 0.5 * dt, **rhsArgs, intStep=2)
             dy1 = 0.25 * dt * (k0 + k10)
             y = yInitial + dy1
             k01 = f(y, t + 0.5 * dt, **rhsArgs, intStep=3)
-            y += 0.5 * dt * k01
+            y = y + 0.5 * dt * k01
             k11 = f(y, t + dt, **rhsArgs, intStep=4)
             dy1 += 0.25 * dt * (k01 + k11)
 
-- 
2.43.0


From 4efe362e88f734b8425decd04ecdfd6b988d9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:42 +0000
Subject: [PATCH 27/40] fix: ExactSampler probabilities turned to NaN when the
 norm changed strongly

The reference scale was the norm of the previous call, so a large change of
the parameters over- or underflowed and poisoned all later calls.
---
 jVMC/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 8ab7281..dd2a2c3 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -512,13 +512,14 @@ class ExactSampler:
         if parameters is not None:
             self.psi.set_parameters(tmpP)
 
+        # Measure amplitudes relative to the largest one to avoid over- and underflows
+        self.lastNorm = mpi.comm.allreduce(float(jnp.max(jnp.real(logPsi), initial=-jnp.inf)), op=mpi.MPI.MAX)
+
         p = self._compute_probabilities_pmapd(logPsi, self.lastNorm, self.numStatesPerDevice)
 
         nrm = mpi.global_sum(p)
         p = self._normalize_pmapd(p, nrm)
 
-        self.lastNorm += self.logProbFactor * jnp.log(nrm)
-
         return self.basis, logPsi, p
 
     def set_number_of_samples(self, N):
-- 
2.43.0


From 096e8050ed2bd0fd397c15cb1f3c500a8144b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:42 +0000
Subject: [PATCH 28/40] fix: importance sampling weights over- or underflowed
 to NaN for large amplitudes

---
 jVMC/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index dd2a2c3..7cff16c 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -220,7 +220,9 @@ class MCSampler:
             return configs, coeffs, ps
 
         configs, logPsi = self._get_samples_mcmc(parameters, numSamples, multipleOf)
-        p = jnp.exp((1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi))
+        logP = (1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi)
+        # Measure weights relative to the largest one to avoid over- and underflows
+        p = jnp.exp(logP - mpi.comm.allreduce(float(jnp.max(logP, initial=-jnp.inf)), op=mpi.MPI.MAX))
         return configs, logPsi, p / mpi.global_sum(p)
 
     def _randomize_samples(self, samples, key, orbit):
-- 
2.43.0


From 21c10083b3f94331b1838e40289d6b2c075500e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:43 +0000
Subject: [PATCH 29/40] fix: non-holomorphic ansatzes with vanishing gradient
 on the first configuration were classified as holomorphic

---
 jVMC/vqs.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 78155b5..99a4eb6 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -199,9 +199,16 @@ class NQS:
             # check Cauchy-Riemann condition to test for holomorphicity
             def make_flat(t):
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
-            grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            def violates_cauchy_riemann(x):
+                grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, x)["params"] )
+                grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, x)["params"] )
+                return not isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14), jnp.all(jnp.isfinite(grads_r) & jnp.isfinite(grads_i))
+            # The gradient can vanish for the given configuration (e.g. all zeros), so a second one is tested, too
+            nonHolomorphic, _ = violates_cauchy_riemann(s[0,0,...])
+            if not self.realParams and not nonHolomorphic:
+                violated, valid = violates_cauchy_riemann(jnp.ones_like(s[0,0,...]))
+                nonHolomorphic = violated and bool(valid)
+            if not self.realParams and not nonHolomorphic:
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From a5a8753e41c7497778c2d46f76cb26b598c72b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:19 +0000
Subject: [PATCH 30/40] fix: TDVP.solve failed for regularization parameters
 pinvCutoff of 0.01 or more

---
 jVMC/util/tdvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index f8c9a02..4710950 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -198,7 +198,8 @@ class TDVP:
         residual = 1.0
         cutoff = 1e-2
         F_norm = jnp.linalg.norm(F)
-        while residual > self.pinvTol and cutoff > self.pinvCutoff:
+        pinvEv = None
+        while pinvEv is None or (residual > self.pinvTol and cutoff > self.pinvCutoff):
             cutoff *= 0.8
             # Set regularizer for singular value cutoff
             regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / jnp.abs(self.ev / self.ev[-1]))**6)
-- 
2.43.0


From 3a2b587f473dde3509c98bcab395cb4457784c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:19 +0000
Subject: [PATCH 31/40] fix: TDVP updates turned to NaN for parameters without
 gradient or samples without signal

---
 jVMC/util/tdvp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 4710950..74fe0a5 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -206,9 +206,11 @@ class TDVP:
 
             if not isinstance(self.sampler, jVMC.sampler.ExactSampler):
                 # Construct a soft cutoff based on the SNR
-                regularizer *= 1. / (1. + (self.snrTol / self.snr)**6)
+                # (directions without signal are discarded)
+                regularizer *= jnp.where(self.snr > 0., 1. / (1. + (self.snrTol / self.snr)**6), 0.)
 
-            pinvEv = self.invEv * regularizer
+            # Discarded eigenvalues stay discarded
+            pinvEv = jnp.where(self.invEv == 0., 0., self.invEv * regularizer)
 
             residual = jnp.linalg.norm((pinvEv * self.ev - jnp.ones_like(pinvEv)) * self.VtF) / F_norm
 
-- 
2.43.0


From 4c74920d5bd5533c4b572104ec21bea40d12a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:22 +0000
Subject: [PATCH 32/40] fix: RNN2DGeneral with GRU cells could not be
 constructed

The cells lacked their number of features, and the parameters of the carry
layers had a different data type than all others.
---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From 39cb3d1fff4110e028d312d28dd6bbf4c47f8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 33/40] fix: ground_state_search performed no step for
 varianceTol >= 1

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index ce091bc..102f021 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -187,7 +187,7 @@ def ground_state_search(psi, ham, tdvpEquation, sampler, numSteps=200, varianceT
             obs = measure(observables, psi, sampler)
             outp.write_observables(n, **obs)
 
-    varE = 1.0
+    varE = np.inf  # unknown before the first step
 
     while n < numSteps and varE > varianceTol:
 
-- 
2.43.0


From 8d232814ce6c831d9069fdce0e2c7e8934be40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 34/40] fix: RBM did not couple the rows of two-dimensional
 configurations

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index 229c291..eed3e67 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s - 1))))
+        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s.ravel() - 1))))
 
 # ** end class RBM
-- 
2.43.0


From 4d97a7cf5bd10c1d34d8ca52a423f90a83488529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 35/40] fix: RBM overflowed for large inputs of the hidden
 units

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index eed3e67..14c59b7 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s.ravel() - 1))))
+        return jnp.sum(act_funs.log_cosh(layer(2 * s.ravel() - 1)))
 
 # ** end class RBM
-- 
2.43.0


From 9a1ad891f49a3175af8dae2b5b3e73853760d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 36/40] fix: CpxCNNSym applied spin flips to 0/1 configurations

---
 jVMC/nets/cnn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..ee72687 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -182,7 +182,9 @@ class CpxCNNSym(nn.Module):
     def __call__(self, x):
 
         inShape = x.shape
+        x = 2 * x - 1
         x = jax.vmap(lambda o, s: jnp.dot(o, s.ravel()).reshape(inShape), in_axes=(0, None))(self.orbit.orbit, x)
+        x = (x + 1) // 2
 
         def evaluate(x):
             return self.cnn(x)
-- 
2.43.0


From 37688bd07e1a933dc451129680cf330cfcb18aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:31 +0000
Subject: [PATCH 37/40] fix: local estimators were NaN for plain real
 amplitudes of negative sign

---
 jVMC/operator/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index bc79db6..c79c193 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -182,7 +182,7 @@ class Operator(metaclass=abc.ABCMeta):
         if logPsiS is None:
             logPsiS = psi(samples)
             if not psi.logarithmic:
-                logPsiS = jnp.log(logPsiS)
+                logPsiS = jnp.log(logPsiS + 0.j)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -190,7 +190,7 @@ class Operator(metaclass=abc.ABCMeta):
             sampleOffdConfigs, _ = self.get_s_primes(samples, *args)
             logPsiSP = psi(sampleOffdConfigs)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP + 0.j)
             return self.get_O_loc_unbatched(logPsiS, logPsiSP)
 
     def get_O_loc_unbatched(self, logPsiS, logPsiSP):
@@ -250,7 +250,7 @@ class Operator(metaclass=abc.ABCMeta):
             sp, _ = self.get_s_primes(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP + 0.j)
 
             OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
 
@@ -272,7 +272,7 @@ class Operator(metaclass=abc.ABCMeta):
             sp, _ = self.get_s_primes(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP + 0.j)
 
             OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
@@ -311,7 +311,7 @@ class Operator(metaclass=abc.ABCMeta):
             op_fun_args = args
         net_fun = psi.net.apply
         if not psi.logarithmic:
-            net_fun = lambda *a: jnp.log(psi.net.apply(*a))
+            net_fun = lambda *a: jnp.log(psi.net.apply(*a) + 0.j)
 
         def op_estimator(params, config):
 
-- 
2.43.0


From 42e35e1b18b13e15eecedb1be0c4320dec204b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:31 +0000
Subject: [PATCH 38/40] fix: samplers took plain amplitudes for logarithmic
 ones

---
 jVMC/sampler.py | 10 +++++++++-
 jVMC/vqs.py     |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 7cff16c..bfa5eae 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -251,7 +251,11 @@ class MCSampler:
             samples = self._randomize_samples_jitd[str(numSamples)](samples, tmpKey2, self.orbit)
             # return self._randomize_samples_jitd[str(numSamples)](samples, tmpKey2, self.orbit)
         
-        return samples, self.net(samples), jnp.ones(samples.shape[:2]) / self.globNumSamples
+        coeffs = self.net(samples)
+        if not self.net.logarithmic:
+            coeffs = jnp.log(coeffs + 0.j)
+
+        return samples, coeffs, jnp.ones(samples.shape[:2]) / self.globNumSamples
 
     def _get_samples_mcmc(self, params, numSamples, multipleOf=1):
 
@@ -287,6 +291,8 @@ class MCSampler:
         tmpP = self.net.params
         self.net.params = params["params"]
         coeffs = self.net(configs)
+        if not self.net.logarithmic:
+            coeffs = jnp.log(coeffs + 0.j)
         self.net.params = tmpP
 
         # return configs, None
@@ -511,6 +517,8 @@ class ExactSampler:
             tmpP = self.psi.get_parameters()
             self.psi.set_parameters(parameters)
         logPsi = self.psi(self.basis)
+        if not self.psi.logarithmic:
+            logPsi = jnp.log(logPsi + 0.j)
         if parameters is not None:
             self.psi.set_parameters(tmpP)
 
diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 99a4eb6..1558873 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -356,6 +356,9 @@ class NQS:
             if callable(self.net.eval_real):
                 evalReal = lambda p,x: jnp.real( self.net.apply(p,x,method=self.net.eval_real) )
 
+        if not self.logarithmic:
+            return lambda p,x: jnp.log( jnp.abs( self.net.apply(p,x) ) ), self.parameters
+
         return evalReal, self.parameters
 
     # **  end def get_sampler_net
-- 
2.43.0


From 7be59ef36c3ae020ea552ebd39bfa4ca4f2224a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:31 +0000
Subject: [PATCH 39/40] fix: gradients of plain amplitudes were not those of
 the logarithmic wave function

---
 jVMC/vqs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 1558873..b8094f1 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -291,7 +291,12 @@ class NQS:
         
         self.init_net(s)
 
-        return self._get_gradients_pmapd(self.net, self.parameters, s, self.batchSize, self.flat_gradient_function)
+        gradOut = self._get_gradients_pmapd(self.net, self.parameters, s, self.batchSize, self.flat_gradient_function)
+
+        if not self.logarithmic:
+            return gradOut / self(s)[..., None]
+
+        return gradOut
 
     # **  end def gradients
 
@@ -315,6 +320,10 @@ class NQS:
         # Here we need to add the treatment for the complex non-holomorphic case
         gradOut = self._get_gradients_dict_pmapd(self.net, self.parameters, s, self.batchSize, self.dict_gradient_function)
 
+        if not self.logarithmic:
+            psiS = self(s)[..., None]
+            gradOut = tree_map(lambda x: x / psiS, gradOut)
+
         if self.holomorphic:
             return self._append_gradients_dict(gradOut, gradOut)
 
-- 
2.43.0


From 9a0cb556e36189f08ef40a4ede9e336bf32fd949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 40/40] fix: global mean and variance of data with other than
 one feature dimension

---
 jVMC/mpi_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 30e886f..b0ae5f1 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,8 +43,8 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.tensordot(p, jnp.conj(data - mean[None, ...]) * (data - mean[None, ...]), axes=1), 'i'), axis_name='i', in_axes=(0, None, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=1), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0

