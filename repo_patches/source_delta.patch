From b38f34033254bd9fce29c94a56d5cf31b1566387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 01/23] fix: account for sub_sample_traj in the time intervals
 of ASEParser

---
 kinisi/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..5385204 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,9 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit,
+                         progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From bbbd9b50b4d902e99bd3166c70fdbfd3257c550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 02/23] fix: single-origin sampling must use the displacement
 over the interval, not the interval index

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 5385204..8346c4d 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, np.newaxis, time_interval - 1]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From 9f0f860733509546534077423d4e05dda56143f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 03/23] fix: do not lose a time interval to floating point
 truncation

---
 kinisi/parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 8346c4d..dc68dbf 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = self._to_steps(self.min_dt)
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -147,6 +147,17 @@ class Parser:
             drift_corrected = disp
         return drift_corrected
 
+    def _to_steps(self, interval: float) -> int:
+        """
+        Convert a time interval to a whole number of trajectory steps, without losing a step to floating point error
+        when the interval is a multiple of the time between steps.
+
+        :param interval: Time interval, in the simulation units.
+
+        :return: Number of complete steps in the interval.
+        """
+        return int(np.round(interval / (self.step_skip * self.time_step), 8))
+
     def get_time_intervals(self, n_steps: int, spacing: str) -> np.ndarray:
         """
         Calculate the smoothed time intervals to be used.
@@ -156,8 +167,8 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = self._to_steps(self.min_dt)
+        max_dt = self._to_steps(self.max_dt)
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0


From 380f9d9ae2b314514b6a196e9a03366d5df0c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 04/23] fix: linearly spaced time intervals must be unique

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index dc68dbf..da6f4de 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -172,7 +172,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
         else:
-- 
2.43.0


From 27a236e7b885831395c94801a99dffeaaa617b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 05/23] fix: number of independent observations follows from
 the simulation length and the sampling

---
 kinisi/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index da6f4de..63861cf 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -229,7 +229,10 @@ class Parser:
                 raise ValueError(f"The sampling option of {self.sampling} is unrecognized, "
                                  "please use 'multi-origin' or 'single-origin'.")
             # n_samples = np.append(n_samples, np.multiply(*disp[:, ::time_interval].shape[:2]))
-            n_samples = np.append(n_samples, disp.shape[0] * time_intervals[-1] / time_interval)
+            if self.sampling == 'single-origin':
+                n_samples = np.append(n_samples, disp.shape[0])
+            else:
+                n_samples = np.append(n_samples, disp.shape[0] * drift_corrected.shape[1] / time_interval)
         return delta_t, disp_3d, n_samples
 
 
-- 
2.43.0


From 750ec82139e6a4f48a31aba2b4256c08880b79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 06/23] fix: specie_indices can be combined with
 framework_indices

---
 kinisi/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 63861cf..a7262b7 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -768,12 +768,11 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = framework_indices
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From 4bf6519f043ee490c41826ad8fa07a7f7834f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:23 +0000
Subject: [PATCH 07/23] fix: molecules can be combined with an empty list of
 framework_indices

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index a7262b7..266b0c6 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -714,7 +714,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
-- 
2.43.0


From eb2a467bf70d5a058e85dc5cf498b6a63b8d5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 08/23] fix: sub_sample_dt must select the observation counts
 along with the intervals

---
 kinisi/diffusion.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..0275731 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,8 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha,
+                                                  random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +596,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,8 +662,8 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
-                                                  alpha, random_state)
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
+                                                  max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -681,7 +682,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +754,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +774,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From cdcd4e753e74fcc31ea12aa922904fc1f97a12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 09/23] fix: do not apply sub_sample_dt again when restoring
 from a dictionary

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 0275731..4c0ee3e 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -144,8 +144,8 @@ class Bootstrap:
         boot = cls(my_dict['delta_t'],
                    my_dict['displacements'],
                    my_dict['n_o'],
-                   sub_sample_dt=my_dict['sub_sample_dt'],
                    dimension=my_dict['dimension'])
+        boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From f834eb6c0e8e740ddf88de7b41e294076c6653e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 10/23] fix: the mean-squared charge displacement must be along
 the requested dimension

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 4c0ee3e..6e4352b 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -749,7 +749,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From 39bd100a47d9683a650e72b03aefd5f67ad8f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 11/23] fix: a start_dt beyond the data must not replace the
 settings of the last successful fit

---
 kinisi/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 6e4352b..8a22da1 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -339,12 +339,12 @@ class Bootstrap:
         if random_state is not None:
             np.random.seed(random_state.get_state()[1][1])
 
+        diff_regime = np.argwhere(self._dt >= start_dt)[0][0]
+
         self._start_dt = start_dt
         self._model = model
         self._cond_max = cond_max
 
-        diff_regime = np.argwhere(self._dt >= self._start_dt)[0][0]
-
         self._covariance_matrix = self.generate_covariance_matrix(diff_regime)
 
         _, logdet = np.linalg.slogdet(self._covariance_matrix)
-- 
2.43.0


From c4ca61371e2112577844bcabbbf2377dd2aebe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 12/23] fix: support fits without an intercept when using the
 results

---
 kinisi/analyzer.py                | 5 ++++-
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..6e15451 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -309,7 +309,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        distribution = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self.intercept is not None:
+            distribution = distribution + self.intercept.samples
+        return distribution
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..c8a495b 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.sigma.samples]).T
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 8a22da1..7721cd3 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -515,7 +515,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..33663cb 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D.samples]).T
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..23afd73 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D_J.samples]).T
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From 1398ce097f8d26161617daf831fbab0f448b0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 13/23] fix: n_i returns the number of independent trajectories

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 7721cd3..a7dae44 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -224,7 +224,7 @@ class Bootstrap:
         """
         :return: The number of independent trajectories as a function of :py:attr:`dt`.
         """
-        return self._n_i
+        return self._n_o
 
     @property
     def intercept(self) -> Union[Distribution, None]:
-- 
2.43.0


From 2a32e51ac4d119321403b78d935c1d920e9e58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 14/23] fix: only warn that the resampled distribution is not
 normal when it is not

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index a7dae44..bd31305 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -284,7 +284,7 @@ class Bootstrap:
             # values += _bayesian_bootstrap(array, n_samples, 100, random_state)
             values += _bootstrap(array, n_samples, 100, random_state)
             p_value = normaltest(values)[1]
-        if len(values) >= max_resamples:
+        if p_value < alpha:
             warnings.warn("The maximum number of resamples has been reached, and the distribution is not yet normal.")
         return Distribution(values)
 
-- 
2.43.0


From 5e668816b79bd03aa76a6d47b121ffa79db12060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 15/23] fix: the minimum eigenvalue method must scale with the
 largest eigenvalue

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index bd31305..84ab92f 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -886,6 +886,6 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
     eigenthings = np.linalg.eig(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = np.max(np.real(eigenvalues)) / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From 2c875a626c1ce253d34f13170e88d82206879deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 16/23] fix: only replace the extension of the file name, not
 dots in directories

---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 6e15451..a73deba 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From c76610a9272ed4e2edd6f40c1f1471ccc49c3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 17/23] fix: save analyzers that hold numpy scalars, such as
 loaded ones

---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index a73deba..73468da 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -372,11 +372,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From 7aa9be85747aab8798c796e08268e31cc8365b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 18/23] fix: keep empty lists when saving and loading

---
 kinisi/analyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 73468da..81ebce3 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -375,6 +375,8 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
         if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
+            if len(value) == 0:
+                h5file.create_group(path + key)
             for i, d in enumerate(value):
                 if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
@@ -410,7 +412,7 @@ def _group_to_dict(h5file: 'h5py._hl.files.File', path: str) -> dict:
                 my_dict[key] = value[()]
         elif isinstance(value, h5py._hl.group.Group):
             key_list = list(h5file[path + key + '/'].keys())
-            if key_list[0][:4] == 'list':
+            if len(key_list) == 0 or key_list[0][:4] == 'list':
                 my_dict[key] = []
                 for i in sorted([int(i[4:]) for i in key_list]):
                     value = h5file[path + key + f'/list{i}']
-- 
2.43.0


From cd59059aa26875ae32d2ac196d6446c6cf040edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 19/23] fix: SuperArrhenius must not change its default bounds
 or those passed to it

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..5b612fb 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = [bounds[0], bounds[1], (bounds[2][0], temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From 05b98e40780f6c608b306e317b650aae169ff116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 20/23] fix: fit the random-walk variance model in closed form

The bounded curve_fit starts at 1 and stops on absolute tolerances, so for
small variances (short intervals or slow diffusion) it returned its starting
value instead of the least-squares coefficient.
---
 kinisi/diffusion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 84ab92f..1e56ffc 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -12,7 +12,7 @@ from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
-from scipy.optimize import minimize, curve_fit
+from scipy.optimize import minimize
 import scipy.constants as const
 import tqdm
 from uravu.distribution import Distribution
@@ -416,7 +416,10 @@ class Bootstrap:
             return a / self._n_o[diff_regime:] * dt**2
 
         if self._model:
-            self._popt, _ = curve_fit(_model_variance, self.dt[diff_regime:], self._v[diff_regime:], bounds=(0, np.inf))
+            # The model is linear in its coefficient, so the least-squares value is known in closed form. An iterative
+            # optimisation with absolute tolerances would stop at its starting value for small variances.
+            unit = _model_variance(self.dt[diff_regime:], 1.0)
+            self._popt = np.array([np.dot(unit, self._v[diff_regime:]) / np.dot(unit, unit)])
             self._model_v = _model_variance(self.dt[diff_regime:], *self._popt)
         else:
             self._model_v = self._v[diff_regime:]
-- 
2.43.0


From 5872333e4d03d4462f067324cee7c304c5275c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:05 +0000
Subject: [PATCH 21/23] fix: a fit that fails leaves the previous settings and
 results in place

The covariance matrix, start_dt, model and cond_max (and for the conductivity
the gradient and intercept) of a failed or interrupted call replaced those of
the last successful fit, while the samples stayed.
---
 kinisi/diffusion.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 1e56ffc..c6b0aa5 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -7,6 +7,7 @@ diffusion coefficient from a material.
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+import functools
 import warnings
 from typing import List, Union, Any
 import numpy as np
@@ -38,6 +39,24 @@ DIMENSIONALITY = {
 }
 
 
+def _all_or_nothing(method):
+    """
+    Decorator for methods that fit: a call that fails (or is interrupted) leaves the object with the settings and
+    results that it had before.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        previous = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = previous
+            raise
+
+    return wrapper
+
+
 class Bootstrap:
     """
     The top-level class for bootstrapping.
@@ -302,6 +321,7 @@ class Bootstrap:
         bottom = np.square(np.mean(d_squared)) * 5
         return top / bottom - 1
 
+    @_all_or_nothing
     def bootstrap_GLS(self,
                       start_dt: float,
                       cond_max: float = 1e16,
@@ -427,6 +447,7 @@ class Bootstrap:
         self._npd_covariance_matrix = self._covariance_matrix
         return cov_nearest(minimum_eigenvalue_method(self._covariance_matrix, self._cond_max))
 
+    @_all_or_nothing
     def diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the diffusivity for the system. Keyword arguments will be
@@ -447,6 +468,7 @@ class Bootstrap:
         """
         return self._diffusion_coefficient
 
+    @_all_or_nothing
     def jump_diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the jump diffusivity for the system. Keyword arguments
@@ -468,6 +490,7 @@ class Bootstrap:
         """
         return self._jump_diffusion_coefficient
 
+    @_all_or_nothing
     def conductivity(self, start_dt: float, temperature: float, volume: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the ionic conductivity for the system, in units of mScm:sup:`-1`.
-- 
2.43.0


From 7b8135972633f6eab0d26e06d59eb5668b24f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:52 +0000
Subject: [PATCH 22/23] fix: framework_indices given as a tuple

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 266b0c6..33d65aa 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -141,7 +141,7 @@ class Parser:
         """
         # drift corrected position
         if len(drift_indices) > 0:
-            framework_disp = disp[drift_indices]
+            framework_disp = disp[list(drift_indices)]
             drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]
         else:
             drift_corrected = disp
-- 
2.43.0


From ad18575434387079a7953a150248a58c009ae52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 23/23] fix: species given as pymatgen Element or Species
 objects, as documented

---
 kinisi/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 33d65aa..ede9561 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -508,8 +508,9 @@ class PymatgenParser(Parser):
         drift_indices = []
         if not isinstance(specie, List):
             specie = [specie]
+        species = [str(s) for s in specie]
         for i, site in enumerate(structure):
-            if site.specie.__str__() in specie:
+            if site.specie.__str__() in species:
                 indices.append(i)
             else:
                 drift_indices.append(i)
-- 
2.43.0

