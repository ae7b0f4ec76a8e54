From 8f5523d3bd453da8094f8d71fe6d7237f15c552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 01/70] fix: keep systematic resampling markers inside the
 cumulative weights

A draw at either end of its interval could select a walker of zero weight
(marker exactly 0) or run past the last walker and raise IndexError (last
marker rounded up to the total weight).
---
 openms/qmc/population_control.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index ce6276d..3104206 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -357,12 +357,15 @@ def comb_resampling(phiw, weights):
     # Generate N equally spaced markers with a random starting offset.
     offset = np.random.uniform(0, 1.0 / N)
     markers = offset + np.arange(N) / N
+    # rounding must not push the last marker past the end of the comb
+    markers = np.minimum(markers, np.nextafter(cumulative_sum[-1], 0.0))
 
     new_phiw = []
     for marker in markers:
         # np.searchsorted finds the index where marker should be inserted
         # to maintain the order, which selects the walker.
-        idx = np.searchsorted(cumulative_sum, marker)
+        # side="right": a marker at 0 must not select a walker of zero weight.
+        idx = np.searchsorted(cumulative_sum, marker, side="right")
         new_phiw.append(copy.copy(phiw[idx]))
 
     new_weights = np.full(N, total_weight / N)
@@ -394,6 +397,8 @@ def stochastic_reconfiguration(phiw, weights):
     start = np.random.uniform(0, 1.0/N)
 
     positions = start + np.arange(N) / N
+    # rounding must not push the last position past the end of the cumulative sum
+    positions = np.minimum(positions, np.nextafter(cumulative_sum[-1], 0.0))
 
     # print("positions      =", positions)
     # print(" cumulative_sum=", cumulative_sum)
@@ -566,6 +571,8 @@ def systematic_resampling(walkers, weights):
     # Starting point: uniformly random in [0, 1/N]
     start = np.random.uniform(0, 1/N)
     positions = start + np.arange(N) / N
+    # rounding must not push the last position past the end of the cumulative sum
+    positions = np.minimum(positions, np.nextafter(cumulative_sum[-1], 0.0))
 
     new_walkers = []
     new_weights = [total_weight / N] * N
-- 
2.43.0


From ae5d2bf1ed5962562819c504ea392b9d82155e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 02/70] fix: carry walker energies along in population control

The hybrid and local energy of a walker enter its next weight update, but
population control left them in place while it moved and cloned the walkers,
so survivors were weighted with the energies of other walkers.
---
 openms/qmc/population_control.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index 3104206..8af8e36 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -504,11 +504,14 @@ def population_control_factory(walkers, method="branching"):
         # print(f"Sum(weights) before control: {backend.sum(walkers.weights):.3f}")
 
         # pack the walker WF (phiwa, phib, boson_phiw) in one list
-        packed_walkers = walkers._pack_walkers()
+        # together with the energies that enter the walker's next weight update
+        packed_walkers = list(zip(walkers._pack_walkers(), walkers.ehybrid, walkers.eloc))
         new_walkers, weights = control_func(packed_walkers, walkers.weights)
 
         # updte walker WF and weights
-        walkers._unpack_walkers(new_walkers)
+        walkers._unpack_walkers([walker[0] for walker in new_walkers])
+        walkers.ehybrid = np.array([walker[1] for walker in new_walkers])
+        walkers.eloc = np.array([walker[2] for walker in new_walkers])
         walkers.weights = weights
 
         # if MPI, we need to do inter-node redistribution
-- 
2.43.0


From 9350e70f22f7714b0c81af03a7572478e1139812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 03/70] fix: seed every rank's random stream from random_seed

default_rng() was built and thrown away, so the global stream the
propagators draw from stayed unseeded on multi-rank runs.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..39c9cea 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From 616cfcd5e737755007aa360741ce75124470e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 04/70] fix: reduce electron-boson energies and mean fields
 over all ranks

The electron-boson local energy divided a rank-local total by the global
norm, and the fermionic density / boson displacement driving the
propagation were averages over the local walkers only.
---
 openms/qmc/generic_walkers.py |  7 ++++++-
 openms/qmc/propagators.py     | 15 +++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/openms/qmc/generic_walkers.py b/openms/qmc/generic_walkers.py
index ba23203..19af750 100644
--- a/openms/qmc/generic_walkers.py
+++ b/openms/qmc/generic_walkers.py
@@ -345,7 +345,12 @@ class Walkers_so(BaseWalkers):
         Qalpha = backend.zeros(trial.mol.nmodes, dtype=backend.complex128)
         sum_boson_DM = {}
         for imode in range(trial.mol.nmodes):
-            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode]) / backend.sum(self.weights)
+            dm = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode])
+            norm = backend.sum(self.weights)
+            if self._mpi.size > 1:
+                dm = self._mpi.comm.allreduce(dm, op=MPI.SUM)
+                norm = self._mpi.comm.allreduce(norm, op=MPI.SUM)
+            sum_boson_DM[imode] = dm / norm
 
         for mode_index, mdim in enumerate(trial.mol.nboson_states):
             Qmat = backend.diag(backend.sqrt(backend.arange(1, mdim)), k = 1) \
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..c05bfd6 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1208,6 +1208,11 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
@@ -1754,10 +1759,12 @@ class PhaselessElecBoson(Phaseless):
         # logger.debug(self, f"walkers.Gf.shape = {walkers.Gf.shape}")
 
         if not self.decouple_bilinear:
-            walkers.rho = (
-                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
-                / backend.sum(walkers.weights)
-            )
+            rho = backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
+            norm = backend.sum(walkers.weights)
+            if walkers._mpi.size > 1:
+                rho = walkers._mpi.comm.allreduce(rho, op=MPI.SUM)
+                norm = walkers._mpi.comm.allreduce(norm, op=MPI.SUM)
+            walkers.rho = rho / norm
         # logger.debug(self, f"test DM = {backend.trace(walkers.rho)}")
 
         # get Qalpha in either 1st or 2nd quantization
-- 
2.43.0


From 2096dd4ec104784287877666bfbc61b2723c2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:20 +0000
Subject: [PATCH 05/70] fix: let the serial communicator scatter [buffer,
 counts, displs, type]

propagator.debug_mpi failed on a machine without mpi4py.
---
 openms/__mpi__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 7194360..25440bc 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -78,6 +78,8 @@ class FakeComm:
         recvbuf[:] = sendbuf
 
     def Scatterv(self, sendbuf, recvbuf, root=0):
+        if isinstance(sendbuf, (list, tuple)):
+            sendbuf = sendbuf[0]  # [buffer, counts, displs, type]
         recvbuf[:] = sendbuf
 
     def scatter(self, sendbuf, root=0):
-- 
2.43.0


From 3b9c2b4ead88cfb29f5cf449460eea519f2b8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/70] fix: honour pop_control_method in the stand-alone AFQMC
 kernel

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 39c9cea..4edbc71 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -156,7 +156,7 @@ def kernel(mc, propagator=None, trial=None):
 
         # step 2) weight control
         wall_t1 = time.time()
-        mc.walkers.weight_control(step, freq=mc.pop_control_freq)
+        mc.walkers.weight_control(step, freq=mc.pop_control_freq, method=mc.pop_control_method)
         mc.wt_weight_control += time.time() - wall_t1
 
         # step 3): estimate energies and other properties if needed
-- 
2.43.0


From ed63541acdb0d7e073e9d2201b0cfcf8b59e1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:59 +0000
Subject: [PATCH 07/70] fix: give every boson mode its own block in the
 electron-boson local energy

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From ab53b99a7ec6ef138e750688210346883cb33ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:59 +0000
Subject: [PATCH 08/70] fix: allow modes with different numbers of boson states
 in AFQMC

---
 openms/qmc/estimators.py  | 6 ++----
 openms/qmc/propagators.py | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..882a835 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,9 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    waTa = backend.concatenate(
+        [w * backend.arange(mdim) for w, mdim in zip(omega, nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index c05bfd6..73be4ca 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1131,10 +1131,10 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
-        )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
+        waTa = backend.concatenate([
+            w * backend.arange(mdim)
+            for w, mdim in zip(self.system.boson_freq, self.system.nboson_states)
+        ])
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From 166aa3b4048020abe3b0795ccf8bd3f300d5f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:59 +0000
Subject: [PATCH 09/70] fix: keep all occupied orbitals of the trial in the MO
 representation

---
 openms/qmc/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 662c19c..9ae3c93 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -773,8 +773,8 @@ class TrialHF(TrialWFBase):
             tmp = backend.identity(nmo)[:, self.mf.mo_occ > 0]
             #self.psia = self.psib = tmp
             # psia and psib may have different size, when nalpha and nbeta are different
-            self.psia = tmp[:, self.nalpha]
-            self.psib = tmp[:, self.nbeta]
+            self.psia = tmp[:, :self.nalpha]
+            self.psib = tmp[:, :self.nbeta]
 
         # print("Debug: nelec  = ", self.mol.nelec)
         # print("Debug: mo_occ = ", self.mf.mo_occ)
-- 
2.43.0


From 2bff2ca1cbb44a626e286fa8ba93bb7b951e4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:22 +0000
Subject: [PATCH 10/70] fix: take the phase of the overlap ratio in the
 phaseless constraint

update_weight replaced ehybrid by its clipped real part before taking the
imaginary part that enters the phaseless cosine, so the phase of the overlap
ratio never counted (a walker whose overlap changed sign kept its weight) and
the hybrid and local schemes disagreed.
---
 openms/qmc/propagators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 73be4ca..19f93e6 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -792,6 +792,9 @@ class Phaseless(PropagatorBase):
         # the hybrid energy scheme
         if self.energy_scheme == "hybrid":
             ehybrid = -(backend.log(ovlp_ratio) + cfb + cmf) / self.dt
+            # phase of the overlap ratio (and mean-field factor); taken before
+            # ehybrid is reduced to its bounded real part
+            phase = (-self.dt * ehybrid - cfb).imag
             ehybrid = backend.clip(
                 ehybrid.real,
                 a_min=eshift.real - self.ebound,
@@ -803,7 +806,6 @@ class Phaseless(PropagatorBase):
                 -self.dt * (0.5 * (ehybrid + walkers.ehybrid) - eshift)
             )
             walkers.ehybrid = ehybrid
-            phase = (-self.dt * walkers.ehybrid - cfb).imag
             phase_factor = backend.array(
                 [max(0, backend.cos(iphase)) for iphase in phase]
             )
-- 
2.43.0


From b54388a87e8094b87b2fd4004da4e7f40f16021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:09 +0000
Subject: [PATCH 11/70] fix: keep the signs of the boson amplitudes when
 normalising walkers

Normalising replaced every boson amplitude by its modulus, so it changed the
walker's state (and energy) instead of its length.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 4edbc71..1399236 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -736,7 +736,7 @@ class QMCbase(object):
             ortho_walkers = backend.zeros_like(self.walkers.boson_phiw)
             norms = backend.einsum('ij,ij->i', self.walkers.boson_phiw, self.walkers.boson_phiw.conj())
             norms = backend.sqrt(norms)
-            self.walkers.boson_phiw = backend.abs(self.walkers.boson_phiw / norms[:, None])
+            self.walkers.boson_phiw = self.walkers.boson_phiw / norms[:, None]
             # for iw in range(self.walkers.boson_phiw.shape[0]):
             #    ortho_walkers[iw] = backend.linalg.qr(self.walkers.boson_phiw[iw])[0]
             # self.walkers.boson_phiw = ortho_walkers
-- 
2.43.0


From 75773d9b7feb1707728dc89116b11c79398f4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 12/70] fix: rescale the force bias to bias_bound

Components above bias_bound were rescaled to modulus one whatever the bound.
---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 19f93e6..d97be08 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -524,7 +524,7 @@ class Phaseless(PropagatorBase):
 
         # Rescale only non-zero elements
         f_rescaled = fbias.copy()
-        f_rescaled[nonzeros] /= absf[nonzeros]
+        f_rescaled[nonzeros] *= self.bias_bound / absf[nonzeros]
 
         # Apply the rescaling to elements exceeding the max bound
         fbias = backend.where(idx_to_rescale, f_rescaled, fbias)
-- 
2.43.0


From 230b488a14a369ee873c09a58101aca4fe6350ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 13/70] fix: do not write a run's walker options into the
 module defaults

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 1399236..27c84b5 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = gwalker.default_walker_options.copy()
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From a87dce9b67cb002ef2298684d4336f37ad0fe3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 14/70] fix: seed every rank's random stream in the stand-alone
 kernel

All ranks were seeded alike, so walkers on different ranks drew the same fields.
---
 openms/qmc/qmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 27c84b5..5d069a5 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -97,7 +97,12 @@ def kernel(mc, propagator=None, trial=None):
     logger.note(mc, task_title("Entering the main kernel of AFQMC"))
     # prepare propagation
     logger.info(mc, f"\n Random seed is {mc.random_seed}\n")
-    backend.random.seed(mc.random_seed)
+    if mc._mpi.size > 1 and not mc.propagator.debug_mpi:
+        ss = backend.random.SeedSequence(mc.random_seed)
+        child_seeds = ss.spawn(mc._mpi.size)
+        backend.random.seed(child_seeds[mc._mpi.rank].generate_state(4))
+    else:
+        backend.random.seed(mc.random_seed)
 
     # integrals
     h1e = mc.h1e
-- 
2.43.0


From ad4f72436fa1d5d8afc3582b9775b0df2a5827d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 15/70] fix: do not normalise the caller's polarisation vectors
 in place

A second Boson built from the same array saw unit vectors and hence unit
coupling strengths; integer vectors were truncated.
---
 openms/lib/boson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..bc1bc22 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -647,6 +647,7 @@ class Boson(object):
         # as the gfac values, if coupling strengths were not provided
         else:
             m_cnsts = numpy.zeros(self.nmodes)
+            vec = numpy.array(vec, dtype=float) # normalise a copy, not the caller's array
             for a in range(self.nmodes):
                 cnst = m_cnsts[a] = numpy.sqrt(numpy.dot(vec[a], vec[a]))
                 if cnst > 1e-15: # Prevent division by zero
-- 
2.43.0


From 17e55465ad0e9b50a1f4cd576b974b3803633010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 16/70] fix: accept a single frequency given as a float

---
 openms/lib/boson.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index bc1bc22..711ac4c 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -590,10 +590,8 @@ class Boson(object):
             raise ValueError(err_msg)
 
         else:
-            if isinstance(omega, float):
-                self.omega = numpy.asarray(omega, dtype=float)
-            else:
-                self.omega = omega.copy()
+            omega = numpy.array(omega, dtype=float, ndmin=1)
+            self.omega = omega.copy()
             self.nmodes = omega.size
 
             # Cavity mode photon occupation numbers
-- 
2.43.0


From 690a86e7f332a7a2f00f57ffa41850d6a17cbaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 17/70] fix: do not optimise the caller's variational
 parameters in place

---
 openms/lib/boson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 711ac4c..0350f67 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -712,7 +712,7 @@ class Boson(object):
             logger.info(self, "Fock basis for photon is used")
 
         if "couplings_var" in kwargs:
-            self.couplings_var = kwargs["couplings_var"]
+            self.couplings_var = numpy.array(kwargs["couplings_var"], dtype=float)
             self.optimize_varf = False
         else:
             self.optimize_varf = True
@@ -725,7 +725,7 @@ class Boson(object):
         self.squeezed_var = numpy.zeros(self.nmodes)
         if "squeezed_var" in kwargs:
             self.optimize_vsq = False
-            self.squeezed_var = kwargs["squeezed_var"]
+            self.squeezed_var = numpy.array(kwargs["squeezed_var"], dtype=float)
 
         # self.polarizations = numpy.zeros((3, self.nmodes), dtype=float) #replaced by vec
 
-- 
2.43.0


From f347221a76b7146a731e4ad040fbfa85422cb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 18/70] fix: keep an AFQMC run's bosons out of the caller's
 molecule

---
 openms/qmc/qmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 5d069a5..f45491c 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -38,6 +38,7 @@ it means that the :math:`L` is effectively decomposed into :math:`X`
 
 """
 
+import copy
 import sys
 from abc import abstractmethod
 from pyscf import lo, scf, fci
@@ -291,6 +292,8 @@ class QMCbase(object):
         if not isinstance(self.system, Boson): # only check boson_freq is system itself not a boson object
             boson_freq = kwargs.get("boson_freq", None)
             if boson_freq is not None:
+                # the bosons belong to this simulation, not to the caller's molecule
+                self.system = self.mol = copy.copy(system)
                 self.system.boson_freq = boson_freq
                 self.system.nmodes = len(self.system.boson_freq)
                 nphoton = kwargs.get("nphoton", 3)
@@ -443,6 +446,7 @@ class QMCbase(object):
             logger.debug(self, f"Debug: trail.mf = {self.trial.mf}")
         else:
             logger.info(self, "Trial WF is set from the input")
+            self.trial.mol = self.mol
 
         # 2) make h1e in Spin orbital
         t0 = time.time()
-- 
2.43.0


From 6d0e699de5261181d7a278b3bbf6bcb506c143c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 19/70] fix: do not alias the caller's couplings_var in
 VT-QED-HF

---
 openms/mqed/vtqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..41a96c1 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -124,7 +124,7 @@ class RHF(scqedhf.RHF):
         self.vsq_grad = numpy.zeros(self.qed.nmodes)
 
         if "couplings_var" in kwargs:
-            self.qed.couplings_var = numpy.asarray(kwargs["couplings_var"])
+            self.qed.couplings_var = numpy.array(kwargs["couplings_var"], dtype=float)
             self.qed.optimize_varf = False
         else:
             self.qed.optimize_varf = True
-- 
2.43.0


From a5f913df47a46300d0ce26831da9686a7404eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:27 +0000
Subject: [PATCH 20/70] fix: do not add the coupling term to the caller's
 integrals in chols_full

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..ea4a430 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -408,7 +408,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
         eri = mol.intor('int2e_sph', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
-        eri += numpy.einsum("npq, nrs->pqrs", g, g)
+        eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
 
     eri = eri.reshape((nao**2, -1))
     u, s, v = scipy.linalg.svd(eri)
-- 
2.43.0


From 9283e07872163b883787fd4d871cdef9d894b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 21/70] fix: sum the coupling term over modes in the blocked
 Cholesky decomposition

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index ea4a430..6d17963 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -577,7 +577,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From ae5ae156222192c5275ca1bdf7fcfd8cbe11bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 22/70] fix: stop at the maximum number of Cholesky vectors
 without an IndexError

---
 openms/qmc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 6d17963..2ed4b18 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -468,7 +468,8 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
 
     nao = mol.nao_nr()
     max_chols = max_chol_fac * nao
-    ltensor = numpy.zeros((max_chols, nao * nao))
+    # one more row: the vector following the last one that is kept is also computed
+    ltensor = numpy.zeros((max_chols + 1, nao * nao))
     diag = numpy.zeros(nao * nao)
 
     # Compute basis indices
-- 
2.43.0


From aaed40716bc1a34a95da7d74716268fda8997b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 23/70] fix: let the decoupled bilinear fields act on their own
 mode

---
 openms/qmc/propagators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index d97be08..a3eb6df 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1159,10 +1159,14 @@ class PhaselessElecBoson(Phaseless):
             self.chol_bilinear_b = self.chol_bilinear[1] # bosonic part
 
             # 2) construct bosonic MF shift
-            nfock = self.system.nboson_states[0]
-            # matrix representation of (a^\dag + a) in Fcok space
-            Hq = boson_adag_plus_a(1, [nfock], [1.0])
-            self.chol_B = backend.einsum("X, nm-> Xnm", self.chol_bilinear_b, Hq)
+            # matrix representation of (a^\dag + a) in Fock space; the fields are
+            # ordered by mode and each acts on the block of its own mode
+            fields_per_mode = len(self.chol_bilinear_b) // nmodes
+            modes = backend.eye(nmodes)
+            self.chol_B = backend.array([
+                boson_adag_plus_a(nmodes, self.system.nboson_states, factor * modes[X // fields_per_mode])
+                for X, factor in enumerate(self.chol_bilinear_b)
+            ])
             self.nBfields = self.chol_B.shape[0]
             if not self.turnoff_bosons:
                 assert self.nBfields == (self.nfields - self.nbarefields)
-- 
2.43.0


From a8c07694116832a199ea0aa6f0540830e376575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 24/70] fix: undefined names in the electronic contractions of
 QED-FCI

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..05b329a 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
-- 
2.43.0


From 1bd36652de4074285b0acfd9b9dd027cf617066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 25/70] fix: index the boson density matrix of QED-FCI by modes

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 05b329a..928c7b3 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -791,7 +791,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -800,7 +800,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From 8acfdca129d0873e48a45e75836ad5d51db41887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 26/70] fix: contract the boson Hamiltonian matrix mode by mode
 in QED-FCI

---
 openms/mqed/qedfci.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 928c7b3..d269644 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -347,14 +347,26 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     ci0 = fcivec.reshape(cishape)
     fcinew = numpy.zeros(cishape)
 
+    Hbb = numpy.asarray(Hbb)
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
+
     #
     # w_x b^+_x b_x
     for imode in range(nmode):
         nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
         for i in range(1, nboson+1):
             slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+            fcinew[slices0] += ci0[slices0] * (Hbb[imode, imode] * i)
+
+    # w_xy b^+_x b_y between different modes
+    for jmode in range(nmode):
+        if not numpy.any(numpy.delete(Hbb[:, jmode], jmode)):
+            continue
+        des = des_boson(ci0, norb, nelec, nmode, boson_states, jmode)
+        for imode in range(nmode):
+            if imode != jmode:
+                fcinew += Hbb[imode, jmode] * cre_boson(des, norb, nelec, nmode, boson_states, imode)
 
     # coherent state
     if zalpha is not None:
@@ -364,7 +376,7 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
             for i in range(nboson):
                 slices1 = slices_for_cre(imode, nmode, i)
                 slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
+                tmp = boson_cre[i] * numpy.dot(Hbb[imode], zalpha)
                 fcinew[slices1] += tmp * ci0[slices0]
                 fcinew[slices0] += tmp * ci0[slices1]
     """
-- 
2.43.0


From 1ae1976759af1f0cbaaf1c744389e5fcfd77a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 27/70] fix: coherent-state representation in QED-FCI

---
 openms/mqed/qedfci.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index d269644..76e76e7 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -251,7 +251,7 @@ def absorb_h1e(h1e, eri, norb, nelec, fac=1):
         h2e[:, :, k, k] += f1e
     return h2e * fac
 
-def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
+def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states, zalpha=None):
     r""" """
 
     # electronic part
@@ -279,7 +279,7 @@ def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
 
     # bosonic term
     # print("Debug-yz: contracting bosonic interaction part")
-    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states)
+    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states, zalpha)
     # print("Debug: c after contract_bb is ", cout)
     t4 = time.time()
 
@@ -682,19 +682,15 @@ def kernel(
         print ("FCI electronic : ", e0)
     if electron_only: return e0, 0.0, 0.0
 
+    zalpha = None
     if coherent_state:
         if nroots > 1:
             dm0 = direct_spin1.make_rdm1(c[0], norb, nelec)
         else:
             dm0 = direct_spin1.make_rdm1(c, norb, nelec)
-        # TODO: modify the H1, H2, Heb, Hbb with coherent state representation
-        if Hbb.ndim == 1:
-            zalpha = - numpy.einsum('xpq, qp -> x', Heb, dm0, optimize=True) / Hpp
-            ecore = ecore + np.einsum("x, x ->", Hpp, zalpha**2)
-        else:
-            tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
-            zalpha = la.solve(Hbb, tmp)
-            ecore = ecore + np.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
+        # shift of the boson operators, b -> b + zalpha
+        zalpha = numpy.linalg.solve(Hbb, -numpy.einsum('xpq, qp -> x', Heb, dm0))
+        ecore = ecore + numpy.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
         H1 = H1 + numpy.einsum('xpq, x -> pq', Heb, zalpha * 2, optimize=True)
 
 
@@ -723,7 +719,7 @@ def kernel(
     H2mod =  absorb_h1e(H1, H2, norb, nelec, 0.5)
     print("Debug: norm of modified H2 =", numpy.linalg.norm(H2mod))
     def hop(c):
-        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states)
+        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states, zalpha)
         # hc = contract_all(H1, H2, Heb, Hbb, c, norb, nelec, nmode, boson_states)
         return hc.reshape(-1)
 
-- 
2.43.0


From ab51747a6b11b9194231ee841d764315a27f43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 28/70] fix: keep every mode's ground state in the multi-mode
 boson coefficients

---
 openms/lib/boson.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 0350f67..62c940c 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -751,7 +751,7 @@ class Boson(object):
         self.cavity_type = None
         boson_size = sum(self.nboson_states)
         self.boson_coeff = numpy.zeros((boson_size, boson_size))
-        self.boson_coeff[:, 0] = 1.0/numpy.sqrt(boson_size)
+        self.boson_coeff[:, 0] = 1.0/numpy.sqrt(numpy.repeat(self.nboson_states, self.nboson_states))
         self.e_boson = 0.0
         # for imode in range(self.nmodes):
         #     mdim = self.nboson_states[imode]
@@ -1121,11 +1121,18 @@ class Boson(object):
         if hasattr(self, "Hph_sc"):
             hmat += unpack_symmetric(self.Hph_sc, hmat.shape[0], fac=2.0)
 
-        # Photon cavity mode eigenvectors
-        e, c = scipy.linalg.eigh(hmat)
-        idx = numpy.argmax(abs(c.real), axis=0)
-        e = e[idx]
-        c[:,c[idx,numpy.arange(len(e))].real<0] *= -1
+        # Photon cavity mode eigenvectors: the modes are independent of each other,
+        # the first column holds the ground state of every mode
+        c = numpy.zeros_like(hmat)
+        idx = 0
+        for mdim in self.nboson_states:
+            blk = slice(idx, idx + mdim)
+            _, cm = scipy.linalg.eigh(hmat[blk, blk])
+            imax = numpy.argmax(abs(cm.real), axis=0)
+            cm[:, cm[imax, numpy.arange(mdim)].real < 0] *= -1
+            c[blk, blk] = cm
+            c[blk, 0] = cm[:, 0]
+            idx += mdim
 
         # Photon ground state energy
         Etot = 0.0
-- 
2.43.0


From 3454dfe14de917d14a00b80c87e7b17a26687f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 29/70] fix: complete the derivative of the displacement matrix
 elements next to the diagonal

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 62c940c..378fe94 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -924,7 +924,7 @@ class Boson(object):
 
             # Term 2: A^(m-n) derivative
             tmp2 = 0.0
-            if i_m - i_n > 1:
+            if i_m - i_n > 0:
                 tmp2 = - (i_m - i_n) * (-factor)**(i_m - i_n - 1) * LA
 
             # Term 3: Laguerre polynomial derivative
-- 
2.43.0


From 7b886409d13ff9c819a9ba2b601d8db970873107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 30/70] fix: Fock amplitudes of a coherent state in
 make_rdm1_org

---
 openms/mqed/qedhf.py   | 4 ++--
 openms/mqed/vtqedhf.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..ae79e02 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -836,8 +836,8 @@ class RHF(hf.RHF):
                 zalpha = self.qed.z_alpha[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 41a96c1..74b2f07 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -657,9 +657,9 @@ class RHF(scqedhf.RHF):
                 zalpha /= self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
+                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
                 # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zn = z0 * (zalpha) ** n / numpy.sqrt(math.factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-- 
2.43.0


From 01e2b157d7e628b09e01773849edbfb8482a2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:04 +0000
Subject: [PATCH 31/70] fix: read the squeezing parameters at their place when
 the couplings are fixed in VT-QED-HF

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 74b2f07..e24efa7 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -577,8 +577,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if params.size > fsize and self.qed.optimize_vsq:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
@@ -602,8 +602,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if self.qed.optimize_vsq and params.size > fsize:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
-- 
2.43.0


From 9fce6e660a9f13e358ccf74c54a8ad819451d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:25 +0000
Subject: [PATCH 32/70] fix: keep the dipole, quadrupole and coupling matrices
 Photon.kernel computes

---
 openms/lib/boson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 378fe94..3632422 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2234,12 +2234,12 @@ class Photon(Boson):
 
     def get_gmat_so(self):
         r"""e-photon coupling matrix in SO basis."""
-        if self.dipole_ao is None: self.get_dipole_ao()
-        if self.quadrupole_ao is None: self.get_quadrupole_ao()
+        if self.dipole_ao is None: self.dipole_ao = self.get_dipole_ao()
+        if self.quadrupole_ao is None: self.quadrupole_ao = self.get_quadrupole_ao()
         if self.pa is None: self.get_mos()
 
 
-        self.get_gmat_ao()
+        self.gmat = self.get_gmat_ao()
         # gmatso
         #gmatso = [
         #    block_diag(self.gmat[i], self.gmat[i]) for i in range(len(self.gmat))
-- 
2.43.0


From 5175180b876abcf07eebecf53919eee8a352f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:25 +0000
Subject: [PATCH 33/70] fix: per-mode frequencies and the orthogonalised
 density matrix in get_integrals4fci

---
 openms/lib/boson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 3632422..304d18f 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -372,7 +372,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     qed.get_gmatao()
     gmat = qed.gmat
-    gmat_bilinear = gmat * numpy.sqrt(cavity_freq/2.0)
+    gmat_bilinear = gmat * numpy.sqrt(qed.omega/2.0)[:, None, None]
     #gmat_bilinear = -gmat * numpy.sqrt(cavity_freq/2.0)
 
     enuc = mol.energy_nuc()
@@ -391,11 +391,11 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
     # transform into orthogonal basis
     #
 
+    SC = ovlp.dot(C)
     hcore = transform_ao2mo(hcore, C)
     ovlp = transform_ao2mo(ovlp, C)
     eri = ao2mo.kernel(eri, C)
     Hep = numpy.einsum("Xpq, pm, qn -> Xmn", gmat_bilinear, C, C, optimize=True)
-    SC = ovlp.dot(C)
     dm0 = transform_ao2mo(dm0, SC)
 
     # add DSE into eri
-- 
2.43.0


From 8b3864ca643693fd3201017858900c7fedb2ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 34/70] fix: share the displacement among the electrons in the
 bilinear term of add_oei_ao

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 304d18f..c0653c9 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1591,7 +1591,7 @@ class Photon(Boson):
         idx = 0
         for imode in range(self.nmodes):
             shift = numpy.eye(self.gmat.shape[1]) * self.z_alpha[imode] #/ mol.nelectron
-            shift = s1e * self.z_alpha[imode]
+            shift = s1e * self.z_alpha[imode] / self._mol.nelectron
             gtmp = (self.gmat[imode] - shift)
             gtmp *= numpy.sqrt(0.5*self.omega[imode])
 
-- 
2.43.0


From 3ff65eccd8c9d1d9eb2154fd8795d6661dbb68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 35/70] fix: fall back to the direct J/K build in QED-HF
 instead of recursing

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index ae79e02..665bbda 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -585,7 +585,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.SCF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 3fda4acc25e8cd6b31809894a95169a1ac2f8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 36/70] fix: Fock amplitudes of the displaced states in
 SC-QED-HF make_rdm1_org

---
 openms/mqed/scqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..d3fc855 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1160,8 +1160,8 @@ class RHF(qedhf.RHF):
                 zalpha /= self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-- 
2.43.0


From bde5c2def4875a9fe998e146f9924dc49aa0b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:01 +0000
Subject: [PATCH 37/70] fix: start SC/VT-QED-HF from the ground state of the
 boson modes

---
 openms/mqed/scqedhf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index d3fc855..095d234 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -249,6 +249,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
     # Coherent-state z_alpha values
     if mf.qed.use_cs:
         mf.qed.update_cs(dm)
+    mf.qed.update_boson_coeff(dm)
 
     # Create initial photonic eigenvector guess(es)
     # mf.qed.update_boson_coeff(dm=dm)
-- 
2.43.0


From 5ea770d51b3f2f47f4304507a07234813987e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 38/70] fix: chain rule of the displacement derivative with
 several boson states in SC/VT-QED-HF

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 095d234..e0037f1 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -869,7 +869,7 @@ class RHF(qedhf.RHF):
             ci = self.qed.boson_coeff[idx : idx + mdim, idx]
             pdm = numpy.outer(numpy.conj(ci), ci)
 
-            derivative = self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
+            derivative = self.qed.displacement_deriv(imode, tmp * diff_eta, pdm) * tmp
 
         # Apply vacuum derivative formula
         else:
-- 
2.43.0


From b97a6f309c6a07ea12e06bc45f71e59d2c5a44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 39/70] fix: sign of the two-electron shift in
 grad_var_params_together with Cholesky vectors

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index e24efa7..a231a20 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -383,7 +383,7 @@ class RHF(scqedhf.RHF):
                 for p in range(self.nao):
                     Lp = self.ltensor[:, p, :]
                     for q in range(self.nao):
-                        shift = self.eta[a, q] - self.eta[a, p]
+                        shift = self.eta[a, p] - self.eta[a, q]
                         # Ieff is the bottleneck
                         Ieff = 2.0 * numpy.einsum('X, Xrs->rs', self.ltensor[:, p, q], self.ltensor) - \
                                numpy.einsum('Xs, Xr->rs', Lp, self.ltensor[:, :,q])
@@ -397,7 +397,7 @@ class RHF(scqedhf.RHF):
                         tmp = numpy.sum(ID * fc_derivative)
                         twobody_deta[p] += tmp * dm_do[a, p, q]
                         # Q
-                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=shift)
+                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=-shift)
                         tmp = numpy.sum(ID * derivative)
                         twobody_dvsq[a] += tmp * dm_do[a, p, q]/ 4.0
             else:
-- 
2.43.0


From c1659d936f8ba13fba6b86ba905d90febe3d6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 40/70] fix: include the photon energy in SC-QED-HF

---
 openms/mqed/scqedhf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index e0037f1..d751d13 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -974,6 +974,10 @@ class RHF(qedhf.RHF):
             Uinv = linalg.inv(U)
             h1e = unitary_transform(Uinv, h1e)
 
+            # VT-QED-HF adds the photon energy in add_oei_ao
+            if dm is not None and type(self) is scqedhf.RHF:
+                h1e += self.qed.e_boson * self.get_ovlp(mol) / mol.nelectron
+
         return h1e
 
 
-- 
2.43.0


From 7ea187f15fd8b0adb29c957fc9f9250313b3e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:17 +0000
Subject: [PATCH 41/70] fix: rebuild the cavity matrices when a QED-HF object
 is reset to another geometry

---
 openms/lib/boson.py    | 12 ++++++++++++
 openms/mqed/qedhf.py   |  8 ++++++++
 openms/mqed/scqedhf.py | 11 +++++++++++
 3 files changed, 31 insertions(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index c0653c9..578719d 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1406,6 +1406,18 @@ class Photon(Boson):
 
         return
 
+    def reset(self, mol):
+        r"""Discard the matrices of the previous molecule (or geometry)
+        and build those of ``mol``.
+        """
+        self._mol = mol
+        self.nao = mol.nao_nr()
+        self.dipole_ao = self.quadrupole_ao = None
+        self.gmat = self.q_lambda_ao = None
+        self.get_gmatao()
+        self.get_q_dot_lambda()
+        return self
+
     # --------------
     # QED-HF methods
     # --------------
diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 665bbda..4a532af 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -459,6 +459,14 @@ class RHF(hf.RHF):
         return
 
 
+    def reset(self, mol=None):
+        r"""Reset the molecule (or geometry) and everything that depends on it."""
+        super().reset(mol)
+        self.nao = self.mol.nao_nr()
+        self.bare_h1e = self.oei = None
+        self.qed.reset(self.mol)
+        return self
+
     def get_oei_AO(self):
         r"""return the effective oei in AO for usage in QMC
         """
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index d751d13..210992c 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -460,6 +460,17 @@ class RHF(qedhf.RHF):
         self.DIIS = diis.SCF_DIIS
 
 
+    def reset(self, mol=None):
+        r"""Reset the molecule (or geometry) and everything that depends on it."""
+        super().reset(mol)
+        self.ltensor = None
+        self.eta = self.eta_grad = None
+        self.P = self.L = None
+        self.ao2dipole = numpy.zeros_like(self.qed.gmat)
+        self.dm_do = numpy.zeros_like(self.qed.gmat)
+        return self
+
+
     def initialize_bare_fock(self, dm=None):
         r"""Return non-QED Fock matrix from provided or initial guess ``dm``."""
         if dm is None:
-- 
2.43.0


From d7aa4c269c1bd29491506e0ef328630611d714ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:59 +0000
Subject: [PATCH 42/70] fix: let the QED-CCSD equations run with several photon
 modes

A left-over line added the vector of mode frequencies to the vector of
virtual orbital energies and failed for every number of modes other than
one.
---
 openms/mqed/myqedcc_equations.py     | 3 ---
 openms/mqed/myqedcc_equations_opt.py | 3 ---
 openms/mqed/qedcc_equations.py       | 2 --
 3 files changed, 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b829782..db73950 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -804,7 +804,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1616,7 +1615,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2554,7 +2552,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..a54f317 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -817,7 +817,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1629,7 +1628,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2572,7 +2570,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..a3809fc 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -1386,7 +1385,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From 0eed6eeff8b556e926f99193888bfd5ff705f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 43/70] fix: complete the single-mode U2n equations of
 qedcc_equations

The terms of the doubles-with-photon residuals that are quartic in the
single excitations (T1^3 U11, and for two photons T1^3 U12 and
T1^2 U11^2) were missing, and the S2 terms of the two-photon residual
were taken up only for three or more photons.
---
 openms/mqed/qedcc_equations.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index a3809fc..9ad9d75 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1621,6 +1621,11 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += 1.0 * einsum('kc,ak,bi,cj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ak,ci,bj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
 
+    U21 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, T1old, T1old, optimize = True)
+    U21 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, T1old, T1old, optimize = True)
+    U21 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U11old, T1old, optimize = True)
+    U21 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+
     U2n[0][0] = U21
 
     if nfock2 < 2: return U2n
@@ -1671,7 +1676,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
@@ -1981,6 +1986,17 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
     U2n[1][0,0] = U22
-- 
2.43.0


From 874cee6750b4cd6e4f459713ba4dece7ec9889a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 44/70] fix: complete the two-photon QED-CCSD residuals

U1n[1] counted four contractions of the two-electron integrals twice and
lacked the T2*U12 one, and U2n[1] lacked the terms that are quartic in the
single excitations, so the equations for nfock2=2 were not those of the
projected Schroedinger equation.
---
 openms/mqed/myqedcc_equations.py     | 32 +++++++++++++++-------------
 openms/mqed/myqedcc_equations_opt.py | 32 +++++++++++++++-------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index db73950..6f7f165 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -2409,6 +2409,7 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    U1n[1] += 0.5*einsum('jkbc,IJck,abij->IJai', I.oovv, U1nold[1], T2old, optimize = True)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2490,33 +2491,23 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -2.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             #U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -3235,6 +3226,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a54f317..f6478af 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2425,6 +2425,7 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    U1n[1] += 0.5*einsum('jkbc,IJck,abij->IJai', I.oovv, U1nold[1], T2old, optimize = True)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2506,33 +2507,23 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -2.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             #U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -3253,6 +3244,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,ci,dj,ak,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
-- 
2.43.0


From 2c62248738344d291225df6b6b6abffab3829da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:36 +0000
Subject: [PATCH 45/70] fix: fill the bra-ket permutations of integrals read
 from FCIDUMP

---
 openms/qmc/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 2ed4b18..11879aa 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -316,6 +316,11 @@ def read_fcidump(fname, norb):
                 eri[q - 1, p - 1, r - 1, s - 1] = integral
                 eri[p - 1, q - 1, s - 1, r - 1] = integral
                 eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # (pq|rs)=(rs|pq): only one of the two is in the file
+                eri[r - 1, s - 1, p - 1, q - 1] = integral
+                eri[r - 1, s - 1, q - 1, p - 1] = integral
+                eri[s - 1, r - 1, p - 1, q - 1] = integral
+                eri[s - 1, r - 1, q - 1, p - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From fdc14868fe3c38c54c8a3987200e835c450d7320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:36 +0000
Subject: [PATCH 46/70] fix: let get_blksize skip vectors without significant
 entries

---
 openms/qmc/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 11879aa..871a9db 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -15,6 +15,8 @@ def get_blksize(ltensor, threshold):
     blksize = 0
     for l in range(ltensor.shape[0]):
         idx_nnz = numpy.argwhere(numpy.abs(ltensor[l]) >= threshold)
+        if len(idx_nnz) == 0:
+            continue
         blksize = max(blksize, numpy.max(numpy.abs(idx_nnz[:, 0] - idx_nnz[:, 1])))
         # print(f"blksize of {l} th chols is {blksize}")
     # print("max distance between nnz in ltensor is", blksize)
-- 
2.43.0


From 2976bbd331e1416dca5ec257b147d38dc6a83e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 47/70] fix: open two-site HHModel has a single bond

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..827eaea 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -150,7 +150,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == "p":
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From 8e2206925a6d2681419140ad4aee3bb670e7579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 48/70] fix: unrestricted Hubbard blocks with no orbital of a
 kind

---
 openms/models/hubbard.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/models/hubbard.py b/openms/models/hubbard.py
index 0bf5a9c..249b149 100644
--- a/openms/models/hubbard.py
+++ b/openms/models/hubbard.py
@@ -147,10 +147,10 @@ class Hubbard1D(object):
         ob = temp[:nb]
         va = temp[na:]
         vb = temp[nb:]
-        oidxa = numpy.r_[oa]
-        vidxa = numpy.r_[va]
-        oidxb = numpy.r_[ob]
-        vidxb = numpy.r_[vb]
+        oidxa = numpy.array(oa, dtype=int)
+        vidxa = numpy.array(va, dtype=int)
+        oidxb = numpy.array(ob, dtype=int)
+        vidxb = numpy.array(vb, dtype=int)
         foa = numpy.zeros(self.L)
         fob = numpy.zeros(self.L)
         for i in range(self.na):
@@ -207,10 +207,10 @@ class Hubbard1D(object):
         ob = temp[:nb]
         va = temp[na:]
         vb = temp[nb:]
-        oidxa = numpy.r_[oa]
-        vidxa = numpy.r_[va]
-        oidxb = numpy.r_[ob]
-        vidxb = numpy.r_[vb]
+        oidxa = numpy.array(oa, dtype=int)
+        vidxa = numpy.array(va, dtype=int)
+        oidxb = numpy.array(ob, dtype=int)
+        vidxb = numpy.array(vb, dtype=int)
         Va, Vb, Vabab = self.u_aint_tot()
 
         Vvvvv = Va[numpy.ix_(vidxa, vidxa, vidxa, vidxa)]
-- 
2.43.0


From 30b26165a524f771aaaeeb072ee183dc82d6f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 49/70] fix: let the aggregate model find its array backend and
 sys

---
 openms/models/aggregates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 4acaf56..1120ad1 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -18,9 +18,10 @@ r"""
 Disordered molecular aggregates.
 """
 
-import openms.lib.backend as bd
+from openms.lib.backend import backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
+import sys
 
 
 def linear_spec(elist, state, evals, dip, gamma):
-- 
2.43.0


From 9d72d7dbe9d696ddc54dad2025e6a3cb4473e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:38 +0000
Subject: [PATCH 50/70] fix: analyse constant series (no outliers, no
 correlation)

---
 openms/qmc/tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 871a9db..11965a6 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -667,7 +667,11 @@ def autocorr_func(x, normalize=True):
     acf /= (4 * n)  # Normalization factor
 
     if normalize:
-        acf /= acf[0]  # Normalize to 1 at zero lag
+        if acf[0] > 0.0:
+            acf /= acf[0]  # Normalize to 1 at zero lag
+        else:
+            # constant series: no fluctuation, hence no correlation between samples
+            acf[0] = 1.0
 
     return acf
 
@@ -749,6 +753,8 @@ def remove_outliers(data, method="zscore", threshold=10.0):
     if method == "zscore":
         mean = numpy.mean(data)
         std = numpy.std(data)
+        if std == 0.0:
+            return data  # constant series: no outliers
         z_scores = numpy.abs((data - mean) / std)
         return data[z_scores < threshold]
 
-- 
2.43.0


From 15a2e52ee2203cba691b57db611e973921629651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:38 +0000
Subject: [PATCH 51/70] fix: blocks of at least one sample for anticorrelated
 data

---
 openms/qmc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 11965a6..0d99e62 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -830,7 +830,8 @@ def analysis_autocorr(y, name="etot", method="zscore", threshold=10.0, verbose=F
         for n, tautocorr in zip(reversed(Ndata), reversed(autocorr_times)):
             print(f"nsamples: {n}, autocorrelation time: {tautocorr}")
 
-    block_size = int(numpy.ceil(autocorr_times[0]))  # Use the estimate with the largest sample size
+    # (anticorrelated data have an autocorrelation time below one sample)
+    block_size = max(1, int(numpy.ceil(autocorr_times[0])))  # Use the estimate with the largest sample size
     nblocks = len(y_clean) // block_size
     yblocked = [numpy.mean(y_clean[i * block_size : (i + 1) * block_size]) for i in range(nblocks)]
 
-- 
2.43.0


From 357530491a8f4b58e34fd320ee4b4102c51f1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 52/70] fix: compiled Coulomb energy sums the squares of the
 field expectation values

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 882a835..b3cfc47 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -471,7 +471,7 @@ if NUMBA_AVAILABLE:
                 LG = np.dot(Ghalfa[iw].ravel(), rltensora[l].ravel())
                 if Ghalfb is not None and rltensorb is not None:
                     LG += np.dot(Ghalfb[iw].ravel(), rltensorb[l].ravel())
-                ecoul[iw] += 0.5 * LG
+                ecoul[iw] += 0.5 * LG * LG
 
         return ecoul
 
-- 
2.43.0


From c9dd1d178e388c3df61ee43c8cc3343eff9989a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 53/70] fix: take all total_time/dt steps when the quotient
 rounds down

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index f45491c..1dbf1d2 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -311,7 +311,7 @@ class QMCbase(object):
         # FIXME: in the future, we will use nsteps to control the propagation,
         # and deprecate the total_time
 
-        self.nsteps = int(total_time / dt)  # nsteps
+        self.nsteps = int(total_time / dt + 1e-8)  # nsteps (0.3/0.1 is just below 3)
         # self.nsteps = nsteps  #
         self.propagator = None
         self.nblocks = 500  #
-- 
2.43.0


From 9ce68c65e82a4f4ecb60a8cc51426c1b7022039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 54/70] fix: keep the output of every earlier MD run in a
 directory of its own

---
 openms/qmd/bomd.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index 7acd59f..cdb19db 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -15,6 +15,20 @@ import openms
 from openms.lib.misc import Molecule, au2A, au2K, call_name, fs2au, typewriter
 
 
+def move_aside(path):
+    r"""Move an existing directory to a name that is not taken yet
+
+    :param string path: directory that makes way for a new one
+    """
+    old = f"{path}_old_{os.getpid()}"
+    new_path = old
+    n = 0
+    while os.path.lexists(new_path):
+        n += 1
+        new_path = f"{old}_{n}"
+    shutil.move(path, new_path)
+
+
 class BaseMD(object):
     r"""Basic Class for nuclear/electronic propagator used in MQC dynamics
 
@@ -131,7 +145,7 @@ class BaseMD(object):
             # For MD output directory
             for md_idir in md_dir:
                 if os.path.exists(md_idir):
-                    shutil.move(md_idir, md_idir + "_old_" + str(os.getpid()))
+                    move_aside(md_idir)
                 os.makedirs(md_idir)
 
                 # self.touch_file(md_idir)
@@ -139,7 +153,7 @@ class BaseMD(object):
             # For QM output directory
             for qm_idir in qm_log_dir:
                 if os.path.exists(qm_idir):
-                    shutil.move(qm_idir, qm_idir + "_old_" + str(os.getpid()))
+                    move_aside(qm_idir)
                 if save_qm_log:
                     os.makedirs(qm_idir)
 
-- 
2.43.0


From fc2ad10982717f57049ced6fe5ac1938b8d2d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 55/70] fix: temperature of a list of molecules uses the
 kinetic energy of each

---
 openms/qmd/bomd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index cdb19db..149bf5e 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -204,7 +204,7 @@ class BaseMD(object):
         ekin = 0
         ndof = 0
         for mol in self.mol:
-            self.mol.get_ekin()
+            mol.get_ekin()
             ekin += mol.ekin
             ndof += mol.ndof
         return ekin * 2.0 / ndof * au2K
-- 
2.43.0


From 19aafd222926a0a8fa10bc66a3a90320133d4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 56/70] fix: molecules start with the velocities they are given

---
 openms/lib/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index 0406034..c95d982 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -284,6 +284,8 @@ class Molecule(mole.Mole):
             print(f"this is model system in {self.ndim} dimension")
 
         self.veloc = None  # velocity
+        if kwargs.get("veloc") is not None:
+            self.veloc = numpy.array(kwargs["veloc"], dtype=float)
         self.mass = None
 
         self.build(**kwargs)
-- 
2.43.0


From 5f8667e3e1e8346635a0f8c57afecf39e4a8138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 57/70] fix: level shift and damping of the Fock matrix

---
 openms/mqed/qedhf.py   | 13 +++++++++----
 openms/mqed/scqedhf.py |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 4a532af..62f8dac 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -200,6 +200,7 @@ def kernel(
     mf.check_sanity()
 
     mf.cycles = 0
+    fock_last = None
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
     for cycle in range(mf.max_cycle):
         dm_last = dm
@@ -211,7 +212,8 @@ def kernel(
         mf.grad_var_params(dm)
 
         h1e = mf.get_hcore(mol, dm)
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
+        fock_last = fock
 
         # Diagonalize Fock matrix and update density matrix
         mo_energy, mo_coeff = mf.eig(fock, s1e)
@@ -311,6 +313,7 @@ def get_fock(
     diis_start_cycle=None,
     level_shift_factor=None,
     damp_factor=None,
+    fock_last=None,
 ):
     r"""
     Return Fock matrix in AO basis, :math:`F = h_{core} + V_{HF}`.
@@ -357,6 +360,8 @@ def get_fock(
     damp_factor : float
         Damping factor for Fock matrix, **optional**
         ``default = 0``.
+    fock_last : :class:`~numpy.ndarray`
+        Fock matrix of the previous SCF iteration, for damping.
 
     Return
     ------
@@ -386,14 +391,14 @@ def get_fock(
     if dm is None: dm = mf.make_rdm1()
     if s1e is None: s1e = mf.get_ovlp()
 
-    if 0 <= cycle < diis_start_cycle - 1 and abs(damp_factor) > 1e-4:
-        f = damping(s1e, dm * 0.5, f, damp_factor) # TODO: will produce error if damping is used
+    if 0 <= cycle < diis_start_cycle - 1 and abs(damp_factor) > 1e-4 and fock_last is not None:
+        f = hf.damping(f, fock_last, damp_factor)
     if diis is not None and cycle >= diis_start_cycle:
         variables, gradients = mf.pre_update_var_params()
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 210992c..1a87dd7 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -304,6 +304,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
 
     mf.cycles = 0
+    fock_last = None
     for cycle in range(mf.max_cycle):
         time0 = time.time()
         dm_last = dm
@@ -325,7 +326,8 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         time_hcore = time.time() - time1
 
         time1 = time.time()
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
+        fock_last = fock
         time_fock = time.time() - time1
 
         mo_energy, mo_coeff = mf.eig(fock, s1e)
-- 
2.43.0


From 50323264f214fd1dbec8616143562b8b2e022924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 58/70] fix: logger.error and logger.debug1 to debug4 name
 their levels

---
 openms/lib/logger.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openms/lib/logger.py b/openms/lib/logger.py
index b770d84..be08be0 100644
--- a/openms/lib/logger.py
+++ b/openms/lib/logger.py
@@ -61,7 +61,7 @@ def log(rec, msg, *args):
         flush(rec, msg, *args)
 
 def error(rec, msg, *args):
-    if rec.verbose >= VERBOSE_ERROR:
+    if rec.verbose >= VERBOSE_ERR:
         flush(rec, '\nERROR: '+msg+'\n', *args)
     sys.stderr.write('ERROR: ' + (msg%args) + '\n')
 
@@ -84,19 +84,19 @@ def debug(rec, msg, *args):
         flush(rec, msg, *args)
 
 def debug1(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG1:
+    if rec.verbose >= DEBUG1:
         flush(rec, msg, *args)
 
 def debug2(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG2:
+    if rec.verbose >= DEBUG2:
         flush(rec, msg, *args)
 
 def debug3(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG3:
+    if rec.verbose >= DEBUG3:
         flush(rec, msg, *args)
 
 def debug4(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG4:
+    if rec.verbose >= DEBUG4:
         flush(rec, msg, *args)
 
 def stdout(rec, msg, *args):
-- 
2.43.0


From 35dec511b7ea0395d772b00d61ad6c20e634bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 59/70] fix: let the serial communicator gather into [buffer,
 counts, displs, type]

---
 openms/__mpi__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 25440bc..0d9d25d 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -34,6 +34,8 @@ class FakeComm:
         recvbuf[:] = sendbuf
 
     def Gatherv(self, sendbuf, recvbuf, root=0):
+        if isinstance(recvbuf, (list, tuple)):
+            recvbuf = recvbuf[0]  # [buffer, counts, displs, type]
         recvbuf[:] = sendbuf
 
     def gather(self, sendbuf, root=0):
-- 
2.43.0


From fc20a263260325858948af8c9945dcad470939a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 60/70] fix: let the serial communicator reduce plain Python
 numbers

---
 openms/__mpi__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 0d9d25d..0675ab8 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -1,5 +1,6 @@
 
 
+from copy import deepcopy
 from dataclasses import dataclass
 from typing import TypeVar
 
@@ -68,7 +69,7 @@ class FakeComm:
         recvbuf[:] = sendbuf
 
     def allreduce(self, sendbuf, op=None, root=0):
-        return sendbuf.copy()
+        return deepcopy(sendbuf)
 
     def Split(self, color: int = 0, key: int = 0):
         return self
-- 
2.43.0


From 9a3110043fd820eba017db27c12413e9d660a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 61/70] fix: timed functions return their result

---
 openms/lib/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index c95d982..9b7db81 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -211,9 +211,10 @@ def wall_time(func):
     @wraps(func)
     def timer(*args, **kwargs):
         tbegin = time.time()
-        func(*args, **kwargs)
+        result = func(*args, **kwargs)
         tend = time.time()
         print(f"{func.__name__} : Elapsed time = {tend - tbegin} seconds", flush=True)
+        return result
 
     return timer
 
-- 
2.43.0


From 6c0bec8352fb824686e6eee623453be64faf43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 62/70] fix: let the package load on parallel ranks other than
 the first

---
 openms/__mpi__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 0675ab8..7426f9c 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -117,6 +117,10 @@ import builtins
 # Store original print
 original_print = builtins.print
 
+# (a module attribute: numba looks the builtin print up by its module and name)
+def mpi_silent_print(*args, **kwargs): pass
+mpi_silent_print.__wrapped__ = True
+
 # Overwrite print if MPI is available
 def configure_print_for_mpi(MPI):
     global original_print  # make sure it's visible to other files
@@ -127,8 +131,6 @@ def configure_print_for_mpi(MPI):
         original_print = print
         rank = MPI.COMM_WORLD.Get_rank()
         if rank != 0:
-            def mpi_silent_print(*args, **kwargs): pass
-            mpi_silent_print.__wrapped__ = True
             #builtins.print = lambda *args, **kwargs: None
             builtins.print = mpi_silent_print
     except:
-- 
2.43.0


From 6d4722afe55e60fdda32d8aa69014baee6f883a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 63/70] fix: one-body part of local_eng_elec

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index b3cfc47..82a1a9f 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -779,7 +779,7 @@ def local_eng_elec_chol(TL_theta, h1e, vbias, Gf):
 def local_eng_elec(h1e, eri, Gf, spin_fac=0.5):
     r"""Compute local energy of electrons"""
 
-    kin = backend.einsum("zSpq,Spq->z", Gf, h1e) * spin_fac
+    kin = 2.0 * backend.einsum("zSpq,Spq->z", Gf, h1e) * spin_fac
 
     # E_coul
     tmp = 2.0 * backend.einsum("prqs,zSpr->zqs", eri, Gf) * spin_fac
-- 
2.43.0


From bd479de24796dce6e5f17f40c24ee81fc9812a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 64/70] fix: removal of linear dependence works at debug
 verbosity

---
 openms/lib/scipy_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/scipy_helper.py b/openms/lib/scipy_helper.py
index 749add0..598031b 100644
--- a/openms/lib/scipy_helper.py
+++ b/openms/lib/scipy_helper.py
@@ -61,6 +61,7 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
     scond = numpy.max(cond(s))
     if scond > max_cond: max_cond = scond
 
+    gconds = []
     from openms.lib import boson
     if isinstance(mf.qed, boson.Boson):
         gconds = cond(mf.qed.gmat)
@@ -71,9 +72,9 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
         return mf
 
     logger.info(mf, 'Applying remove_linear_dep on SCF object.')
-    logger.debug(mf, 'Overlap condition number %g', cond)
+    logger.debug(mf, 'Overlap condition number %g', scond)
     for a in range(len(gconds)):
-        logger.debug(mf, 'mode #%d gmat condition number %g', ((a+1), gconds[a]))
+        logger.debug(mf, 'mode #%d gmat condition number %g', a+1, gconds[a])
 
     if (max_cond < 1./numpy.finfo(s.dtype).eps and not force_pivoted_cholesky):
         logger.info(mf, 'Using canonical orthogonalization with threshold {}'.format(threshold))
-- 
2.43.0


From af1d395c89a2046c3ef1471efa7c974af2e46423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 65/70] fix: Spin keeps the zero-field splitting it is given

---
 openms/spindy/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/spindy/spin.py b/openms/spindy/spin.py
index b7bedfe..a744951 100644
--- a/openms/spindy/spin.py
+++ b/openms/spindy/spin.py
@@ -137,8 +137,8 @@ class Spin(object):
 
         self.coord = coord
         self.spin = 0.5
-        self.D = 0.0
-        self.E = 0.0
+        self.D = D
+        self.E = E
         self.alpha = None
         self.beta = None
         self._zfs = None
-- 
2.43.0


From c3823b7523a75969c868a144adbc8617d5c45b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 66/70] fix: Fock-space trial keeps the imaginary part of
 complex amplitudes

---
 openms/qmc/trial_boson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/trial_boson.py b/openms/qmc/trial_boson.py
index ea5e6b0..ffa831d 100644
--- a/openms/qmc/trial_boson.py
+++ b/openms/qmc/trial_boson.py
@@ -174,7 +174,8 @@ class TrivialFock(TrialBosonBase):
 
         print("Build trial in Fock space")
         count = 0
-        self.boson_psi = np.zeros(self.ndim)
+        dtype = float if alpha is None else np.result_type(float, np.asarray(alpha).dtype)
+        self.boson_psi = np.zeros(self.ndim, dtype=dtype)
         for n_vec in backend.ndindex(*(self.nfock, ) * self.nmodes):
             if alpha is not None:
                 # Compute coefficient using coherent state expansion
-- 
2.43.0


From 78ea1a8866022da034d5002b1e6c97e67cce1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 67/70] fix: selecting the precision of the numpy backend has
 effect

---
 openms/lib/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/backend.py b/openms/lib/backend.py
index d504d4b..fedd796 100644
--- a/openms/lib/backend.py
+++ b/openms/lib/backend.py
@@ -118,7 +118,7 @@ def _replace_float(func):
     @wraps(func)
     def new_func(self, *args, **kwargs):
         result = func(*args, **kwargs)
-        if result.dtype in numpy_float_dtypes:
+        if result.dtype.type in numpy_float_dtypes:
             result = numpy.asarray(result, dtype=self.float)
         return result
 
-- 
2.43.0


From c8117d51ab81730a2ebea3e5285262b8aacccde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 68/70] fix: factors of the overlap are assigned in the right
 order

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 1a87dd7..a62ddd5 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -502,7 +502,7 @@ class RHF(qedhf.RHF):
                                          cholesky_threshold=CHOLESKY_THRESHOLD,
                                          force_pivoted_cholesky=FORCE_PIVOTED_CHOLESKY)
         s1e = self.get_ovlp(self.mol)
-        self.P, self.L = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
+        self.L, self.P = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
         self.n_oao = self.P.shape[1]
 
         return self
-- 
2.43.0


From dd8bf21523a086bdc19d0b47bb04cb430a2865b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:21 +0000
Subject: [PATCH 69/70] fix: AFQMC of an open-shell molecule treats both spins
 by default

---
 openms/qmc/qmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 1dbf1d2..ca8ca6f 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -417,7 +417,8 @@ class QMCbase(object):
 
         # number of spin components
         self.ncomponents = 1
-        if self.uhf or self.use_so:
+        # an open shell needs both spin components
+        if self.uhf or self.use_so or getattr(self.mol, "spin", 0) != 0:
             self.ncomponents = 2
         # if trial is not None, get ncomponents from trial
 
-- 
2.43.0


From 04925a1eb30ff18d43da85ea2cb3727df3183d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:21 +0000
Subject: [PATCH 70/70] fix: bosons of a bare molecule can be turned off

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index ca8ca6f..2d0fa6a 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -469,7 +469,7 @@ class QMCbase(object):
             logger.debug(self, f"Debug: initial coherent state is  : {zalpha}")
             logger.debug(self, f"Debug: initial bosonic trial WF is: {self.trial.boson_psi}")
         elif self.geb is not None and self.propagator_options["turnoff_bosons"]:
-            self.trial.boson_psi *= 0.0
+            self.trial.boson_psi = backend.zeros(sum(self.mol.nboson_states))
             self.trial.boson_psi[0] = 1.0
 
         # 3) set up walkers
-- 
2.43.0

