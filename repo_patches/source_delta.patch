From 2147f45ef42dce8e570cdb85c3739726997f6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 01/24] fix: CustomPrior.perturb_value raised UnboundLocalError
 outside of a birth

---
 src/bayesbay/prior/_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 57ef5ad..7a73295 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -969,6 +969,8 @@ class CustomPrior(Prior):
         """
         if is_birth:
             perturb_std = self.get_perturb_std_birth(position)
+        else:
+            perturb_std = self.get_perturb_std(position)
         random_deviate = random.normalvariate(0, perturb_std)
         new_value = value + random_deviate
         ratio = self.log_prior(new_value, position) - self.log_prior(value, position)
-- 
2.43.0


From 613acb80b5fac51b7a316384d37f2a7168d95293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 02/24] fix: CustomPrior.initialize returned one value per
 coordinate instead of per position

---
 src/bayesbay/prior/_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 7a73295..b86eef8 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -920,7 +920,7 @@ class CustomPrior(Prior):
         return self._sample(position) 
     
     def initialize(self, positions: np.ndarray = None) -> np.ndarray:
-        result = np.empty_like(positions)
+        result = np.empty(len(positions))
         for i, position in enumerate(positions):
             result[i] = self._sample(position)
         return result
-- 
2.43.0


From c68aed4fd46ea287c7b74d553659634e21b9f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 03/24] fix: position-dependent Gaussian/Laplace priors could
 not be initialized in 2D

---
 src/bayesbay/prior/_prior.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index b86eef8..3ef7ada 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -590,8 +590,7 @@ class GaussianPrior(Prior):
             chosen according to the normal distribution defined
             by :attr:`mean` and :attr:`std` at the given positions
         """
-        mean = self.get_mean(positions)
-        std = self.get_std(positions)
+        mean, std = np.array([(self.get_mean(p), self.get_std(p)) for p in positions]).T
         values = np.random.normal(mean, std, len(positions))
         return values
 
@@ -788,8 +787,7 @@ class LaplacePrior(Prior):
             chosen according to the Laplace distribution defined
             by :attr:`mean` and :attr:`scale` at the given positions
         """
-        mean = self.get_mean(positions)
-        scale = self.get_scale(positions)
+        mean, scale = np.array([(self.get_mean(p), self.get_scale(p)) for p in positions]).T
         values = np.random.laplace(mean, scale, len(positions))
         return values
     
-- 
2.43.0


From 209c0f2d1c578856e63d3e340df8a4da516527f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 04/24] fix: birth from neighbour crashed with a nested
 ParameterSpace

---
 src/bayesbay/discretization/_discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/discretization/_discretization.py b/src/bayesbay/discretization/_discretization.py
index 4a3caec..89aec4e 100644
--- a/src/bayesbay/discretization/_discretization.py
+++ b/src/bayesbay/discretization/_discretization.py
@@ -367,7 +367,7 @@ class Discretization(Prior, ParameterSpace):
                 ) ** 2 / (2 * _perturb_std**2)
                 log_prob_ratio += log_prior_ratio + log_proposal_ratio
             elif isinstance(param, ParameterSpace):     # birth from prior
-                new_value, _ = param.sample()
+                new_value = param.sample()
                 new_born_values[param_name] = new_value
                 # log_prob_ratio += 0
             else:
-- 
2.43.0


From d07fb443e2522ab417730dc325cd79d4c0036d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 05/24] fix: functions added by add_on_end_advance_chain were
 never called

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index b60f6b1..2aa3c6e 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -234,7 +234,7 @@ class Sampler(ABC):
             )
         else:
             self._chains = [func(chain) for chain in self.chains]
-        self.on_end_advance_chain()
+        self.end_advance_chain()
         return self.chains
 
 
-- 
2.43.0


From 9e0b8c1af0b7fea8fc58252687ead233b7003a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 06/24] fix: SimulatedAnnealing stayed at temperature_start
 when run() was called again

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 2aa3c6e..69578d6 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -400,7 +400,7 @@ class SimulatedAnnealing(Sampler):
             chain.temperature = self.temperature_start * math.exp(
                 -self.cooling_rate * iteration
             )
-        elif iteration == self.burnin_iterations:
+        else:
             chain.temperature = 1
 
     def on_end_iteration(self, chain: BaseMarkovChain):
-- 
2.43.0


From 0a3d48face24fae17d0e8af4d32ee5e5572a02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 07/24] fix: ParallelTempering saved samples of the burn-in
 phase and could not be run twice

---
 src/bayesbay/samplers/_samplers.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 69578d6..feffd4e 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -346,21 +346,18 @@ class ParallelTempering(Sampler):
         verbose=True,
         print_every=100,
     ) -> List[BaseMarkovChain]:
+        last_iteration = n_iterations + self.chains[0].ith_iteration
         while True:
-            iteration = self.chains[0].statistics["n_proposed_models_total"]
-            n_it = min(self._swap_every, n_iterations - iteration)
-            burnin_it = max(
-                0, min(self._swap_every, burnin_iterations - iteration)
-            )
+            n_it = min(self._swap_every, last_iteration - self.chains[0].ith_iteration)
+            if n_it <= 0:
+                break
             self.advance_chain(
                 n_iterations=n_it,
-                burnin_iterations=burnin_it,
+                burnin_iterations=burnin_iterations,
                 save_every=save_every,
                 verbose=verbose,
                 print_every=print_every,
             )
-            if iteration >= n_iterations:
-                break
         return self.chains
 
 
-- 
2.43.0


From 106b945349c354e31a19dee8cdbf968aecea2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 08/24] fix: the swap probability of ParallelTempering was
 tempered twice

---
 src/bayesbay/samplers/_samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index feffd4e..ba9d609 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -332,7 +332,9 @@ class ParallelTempering(Sampler):
         for i in range(len(self.chains)):
             chain1, chain2 = np.random.choice(self.chains, 2, replace=False)
             T1, T2 = chain1.temperature, chain2.temperature
-            log_like_ratio = chain1._log_likelihood_ratio(chain2.current_state)
+            log_like_ratio = chain1.log_likelihood.log_likelihood_ratio(
+                chain1.current_state, chain2.current_state
+            )
             prob = (1 / T1 - 1 / T2) * log_like_ratio
             if prob > math.log(random.random()):
                 chain1.temperature = T2
-- 
2.43.0


From 10232c36659a3d4dd106d25d50133992807954ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 09/24] fix: a user function failing during a temperature swap
 aborted the whole run

---
 src/bayesbay/samplers/_samplers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index ba9d609..618fe9c 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -7,6 +7,7 @@ import numpy as np
 import joblib
 
 from .._markov_chain import MarkovChain, BaseMarkovChain
+from ..exceptions import ForwardException, UserFunctionException
 
 
 class Sampler(ABC):
@@ -332,9 +333,12 @@ class ParallelTempering(Sampler):
         for i in range(len(self.chains)):
             chain1, chain2 = np.random.choice(self.chains, 2, replace=False)
             T1, T2 = chain1.temperature, chain2.temperature
-            log_like_ratio = chain1.log_likelihood.log_likelihood_ratio(
-                chain1.current_state, chain2.current_state
-            )
+            try:
+                log_like_ratio = chain1.log_likelihood.log_likelihood_ratio(
+                    chain1.current_state, chain2.current_state
+                )
+            except (ForwardException, UserFunctionException):
+                continue
             prob = (1 / T1 - 1 / T2) * log_like_ratio
             if prob > math.log(random.random()):
                 chain1.temperature = T2
-- 
2.43.0


From b4953b9291f977c5c3f0e79c6700111589ec4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 10/24] fix: the chains setter refused valid lists of chains
 and accepted invalid ones

---
 src/bayesbay/_bayes_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index db1fa1b..186a8ae 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -194,7 +194,7 @@ class BaseBayesianInversion:
             :class:`BaseMarkovChain`
         """
         if not isinstance(updated_chains, list) or \
-            all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
+            not all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
                 raise TypeError("make sure the `updated_chains` is a list of chains")
         self._chains = updated_chains
         self.n_chains = len(updated_chains)
-- 
2.43.0


From 3bc5a3492a4ce0a09b397432f6abdb2ffcf411e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 11/24] fix: perturbed values were not visible through the
 attributes of the state

---
 src/bayesbay/perturbations/_data_noise.py   | 3 ++-
 src/bayesbay/perturbations/_param_values.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index 732ebbe..b7c2123 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -52,7 +52,8 @@ class NoisePerturbation(Perturbation):
             new_data_noise_state = self._perturb_target(target, old_data_noise_state)
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
-        new_state.param_values.update(new_data_noise_all)
+        for target_name, data_noise_state in new_data_noise_all.items():
+            new_state.set_param_values(target_name, data_noise_state)
         return new_state, 0
 
     def _perturb_target(
diff --git a/src/bayesbay/perturbations/_param_values.py b/src/bayesbay/perturbations/_param_values.py
index 94d3502..1395a26 100644
--- a/src/bayesbay/perturbations/_param_values.py
+++ b/src/bayesbay/perturbations/_param_values.py
@@ -80,7 +80,8 @@ class ParamPerturbation(Perturbation, ParamSpaceMixin):
                 new_param_values[param.name][idx] = new_value
         # structure new param value(s) into new state
         new_ps_state = ps_state.copy()
-        new_ps_state.param_values.update(new_param_values)
+        for param_name, values in new_param_values.items():
+            new_ps_state.set_param_values(param_name, values)
         return new_ps_state, log_prob_ratio
 
     @property
-- 
2.43.0


From 67535d310384faaca0e5a1033c17d014af7ae2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 12/24] fix: Voronoi sites and data noise were under-sampled
 close to their bounds

---
 src/bayesbay/discretization/_voronoi.py   | 52 +++++++----------------
 src/bayesbay/perturbations/_data_noise.py | 12 +++---
 2 files changed, 21 insertions(+), 43 deletions(-)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index c7a8467..5eea03e 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -192,19 +192,16 @@ class Voronoi(Discretization):
         Union[Number, np.ndarray]
             perturbed Voronoi site position
         """
-        while True:
-            if self.spatial_dimensions == 1:
-                random_deviate = random.normalvariate(0, self.perturb_std)
-                new_site = site + random_deviate
-                if new_site >= self.vmin and new_site <= self.vmax:
-                    return new_site
-            else:
-                random_deviate = np.random.normal(
-                    0, self.perturb_std, self.spatial_dimensions
-                )
-                new_site = site + random_deviate
-                if all((new_site >= self.vmin) & (new_site <= self.vmax)):
-                    return new_site
+        if self.spatial_dimensions == 1:
+            random_deviate = random.normalvariate(0, self.perturb_std)
+        else:
+            random_deviate = np.random.normal(
+                0, self.perturb_std, self.spatial_dimensions
+            )
+        return site + random_deviate
+
+    def _is_in_domain(self, site: Union[Number, np.ndarray]) -> bool:
+        return bool(np.all((site >= self.vmin) & (site <= self.vmax)))
 
     def perturb_value(
         self, old_ps_state: ParameterSpaceState, isite: int
@@ -234,6 +231,8 @@ class Voronoi(Discretization):
         old_sites = old_ps_state["discretization"]
         old_site = old_sites[isite]
         new_site = self._perturb_site(old_sites[isite])
+        if not self._is_in_domain(new_site):
+            return old_ps_state, -math.inf
         new_sites = old_sites.copy()
         new_sites[isite] = new_site
         if self.spatial_dimensions == 1:
@@ -1382,31 +1381,10 @@ class Voronoi2D(Voronoi):
         ps_state.save_to_cache("kdtree", kdtree)
         return ps_state
 
-    def _perturb_site(
-        self, site: Union[Number, np.ndarray]
-    ) -> Union[Number, np.ndarray]:
-        """perturbes a Voronoi  site
-
-        Parameters
-        ----------
-        site : Union[Number, np.ndarray]
-            Voronoi site position.
-
-        Returns
-        -------
-        Union[Number, np.ndarray]
-            perturbed Voronoi site position
-        """
+    def _is_in_domain(self, site: Union[Number, np.ndarray]) -> bool:
         if self.polygon is None:
-            return super()._perturb_site(site)
-        while True:
-            random_deviate = np.random.normal(
-                0, self.perturb_std, self.spatial_dimensions
-            )
-            new_site = site + random_deviate
-            point = shapely.geometry.Point(new_site)
-            if self.polygon.contains(point):
-                return new_site
+            return super()._is_in_domain(site)
+        return self.polygon.contains(shapely.geometry.Point(site))
 
     def perturb_value(self, old_ps_state: ParameterSpaceState, isite: int):
         new_ps_state, log_prior_ratio = super().perturb_value(old_ps_state, isite)
diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index b7c2123..b94561d 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -1,5 +1,6 @@
 from numbers import Number
 from typing import Tuple, List
+import math
 import random
 
 from .._state import State, DataNoiseState
@@ -50,6 +51,8 @@ class NoisePerturbation(Perturbation):
         for target in self.targets:
             old_data_noise_state = state[target.name]
             new_data_noise_state = self._perturb_target(target, old_data_noise_state)
+            if new_data_noise_state is None:    # outside of the prior bounds
+                return state.copy(), -math.inf
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
         for target_name, data_noise_state in new_data_noise_all.items():
@@ -68,12 +71,9 @@ class NoisePerturbation(Perturbation):
             vmax = getattr(target, f"{p}_max")
             perturb_std = getattr(target, f"{p}_perturb_std")
             old_value = getattr(data_noise_state, p)
-            while True:
-                random_deviate = random.normalvariate(0, perturb_std)
-                new_value = old_value + random_deviate
-                if new_value < vmin or new_value > vmax:
-                    continue
-                break
+            new_value = old_value + random.normalvariate(0, perturb_std)
+            if new_value < vmin or new_value > vmax:
+                return None
             new_values[p] = new_value
         return DataNoiseState(**new_values)
 
-- 
2.43.0


From fc9c5621260e907f96260e9f82a0d404a9796c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 13/24] fix: states that are dictionaries could not be saved
 with save_dpred=True

---
 src/bayesbay/_markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index 1dedc81..b25d82a 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -123,7 +123,7 @@ class BaseMarkovChain:
                 ):
                     continue
                 self.saved_states[k].append(v)
-            if self.save_dpred:
+            if self.save_dpred and isinstance(self.current_state, State):
                 for k, v in self.current_state.cache.items():
                     if "dpred" in k:
                         self.saved_states[k].append(v)
-- 
2.43.0


From d31eced936946fc0de2b351c2b9187d5daaf4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 14/24] fix: samples saved before the first likelihood
 evaluation lacked their predicted data

---
 src/bayesbay/_markov_chain.py              | 20 +++++++------
 src/bayesbay/likelihood/_log_likelihood.py | 33 ++++++++++++++++------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index b25d82a..c9507fd 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -216,16 +216,18 @@ class BaseMarkovChain:
                 self._statistics["exceptions"][e.__class__.__name__] += 1
                 continue
 
-            if math.isinf(log_prob_ratio):
-                log_likelihood_ratio = 0
-            else:
-                # calculate the log likelihood ratio
-                try:
+            try:
+                if math.isinf(log_prob_ratio):
+                    # the current state may be saved before any state is accepted
+                    self.log_likelihood.predict_data(self.current_state)
+                    log_likelihood_ratio = 0
+                else:
+                    # calculate the log likelihood ratio
                     log_likelihood_ratio = self._log_likelihood_ratio(new_state)
-                except (ForwardException, UserFunctionException) as e:
-                    _last_exception = e
-                    self._statistics["exceptions"][e.__class__.__name__] += 1
-                    continue
+            except (ForwardException, UserFunctionException) as e:
+                _last_exception = e
+                self._statistics["exceptions"][e.__class__.__name__] += 1
+                continue
 
             # decide whether to accept
             acceptance_probability = log_prob_ratio + log_likelihood_ratio
diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index 2c32046..fc1bf38 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -305,19 +305,34 @@ class LogLikelihood:
             self._perturbation_funcs = []
             self._perturbation_weights = []
 
+    def predict_data(self, state: Union[State, Any]):
+        """makes sure that the data predicted from the given state are available in
+        its cache; it does nothing when there are no forward functions
+
+        Parameters
+        ----------
+        state : Union[State, Any]
+            the state to predict the data from
+        """
+        for target, fwd_func in zip(self.targets, self.fwd_functions):
+            self._get_dpred(state, target, fwd_func)
+
+    def _get_dpred(self, state: State, target: Target, fwd_func: Callable):
+        _dpred_key = f"{target.name}.dpred"
+        if state.saved_in_cache(_dpred_key):
+            return state.load_from_cache(_dpred_key)
+        try:
+            dpred = fwd_func(state)
+        except Exception as e:
+            raise ForwardException(e)
+        state.save_to_cache(_dpred_key, dpred)
+        return dpred
+
     def _get_misfit_and_det(self, state: State) -> Tuple[Number, Number]:
         misfit = 0
         log_det = 0
         for target, fwd_func in zip(self.targets, self.fwd_functions):
-            _dpred_key = f"{target.name}.dpred"
-            if state.saved_in_cache(_dpred_key):
-                dpred = state.load_from_cache(_dpred_key)
-            else:
-                try:
-                    dpred = fwd_func(state)
-                except Exception as e:
-                    raise ForwardException(e)
-                state.save_to_cache(_dpred_key, dpred)
+            dpred = self._get_dpred(state, target, fwd_func)
             residual = dpred - target.dobs
             misfit += residual @ target.inverse_covariance_times_vector(state, residual)
             if target.is_hierarchical:
-- 
2.43.0


From abdb862a9308dfada8da65f8760f93dfce0b74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 15/24] fix: names containing "n_dimensions" in the extra
 storage aborted the run

---
 src/bayesbay/_markov_chain.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index c9507fd..7f2c232 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -112,16 +112,12 @@ class BaseMarkovChain:
     def _save_state(self):
         if isinstance(self.current_state, (State, dict)):
             for k, v in self.current_state.items():
-                if (
-                    ("n_dimensions" in k)
-                    and (hasattr(self, "parameterization"))
-                    and (
-                        not self.parameterization.parameter_spaces[
-                            k[: -len(".n_dimensions")]
-                        ].trans_d
+                if k.endswith(".n_dimensions") and hasattr(self, "parameterization"):
+                    parameter_space = self.parameterization.parameter_spaces.get(
+                        k[: -len(".n_dimensions")]
                     )
-                ):
-                    continue
+                    if parameter_space is not None and not parameter_space.trans_d:
+                        continue
                 self.saved_states[k].append(v)
             if self.save_dpred and isinstance(self.current_state, State):
                 for k, v in self.current_state.cache.items():
-- 
2.43.0


From 39813469c07b316927e086ef0ad5664dddc0afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 16/24] fix: targets added after a parallel run were ignored by
 the chains

---
 src/bayesbay/_bayes_inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 186a8ae..9f1c9b6 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -468,6 +468,8 @@ class BayesianInversion(BaseBayesianInversion):
         self.perturbation_funcs, self.perturbation_weights = \
             self._init_perturbation_funcs()
         for chain in self.chains:
+            # chains returned by other processes hold a copy of the log likelihood
+            chain.log_likelihood = self.log_likelihood
             chain.set_perturbation_funcs(
                 self.perturbation_funcs, self.perturbation_weights
             )
-- 
2.43.0


From 4773dd6d46ebaea8c75906c1468dd4ff7268b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 17/24] fix: forward functions given with arguments to
 add_targets could not be called

---
 src/bayesbay/likelihood/_log_likelihood.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index fc1bf38..ac719a9 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -194,7 +194,7 @@ class LogLikelihood:
             for func in fwd_functions:
                 if not isinstance(func, (Callable, tuple)):
                     raise TypeError("`fwd_functions` should be a Callable/tuple or a list of Callables/tuples")
-            self.fwd_functions.extend(fwd_functions)
+            self.fwd_functions.extend(_preprocess_func(func) for func in fwd_functions)
         
         self._check_duplicate_target_names()
         self._init_perturbation_funcs()
@@ -270,11 +270,7 @@ class LogLikelihood:
 
     def _init_log_likelihood_ratio(self):
         if self.targets and self.fwd_functions:
-            _fwd_functions = self.fwd_functions
-            _targets = self.targets
-            assert len(_fwd_functions) == len(_targets)
-            self._targets = _targets
-            self._fwd_functions = [_preprocess_func(func) for func in _fwd_functions]
+            assert len(self.fwd_functions) == len(self.targets)
             self._log_likelihood_ratio = self._log_likelihood_ratio_from_targets
         elif self.log_like_ratio_func:
             self.log_like_ratio_func = _preprocess_func(self.log_like_ratio_func)
-- 
2.43.0


From 25d3db2ae9f762980553f8fda769a6ea32bcfc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 18/24] fix: nested Voronoi2D states born during the sampling
 lacked their kdtree

---
 src/bayesbay/discretization/_voronoi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index 5eea03e..d236776 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -1369,6 +1369,12 @@ class Voronoi2D(Voronoi):
                     return new_site
         return super().sample_site()
 
+    def sample_discretization(self) -> ParameterSpaceState:
+        ps_state = super().sample_discretization()
+        if self.compute_kdtree:
+            return self._add_kdtree_to_ps_state(ps_state)
+        return ps_state
+
     def _initialize(self) -> ParameterSpaceState:
         ps_state = super()._initialize()
         if self.compute_kdtree:
-- 
2.43.0


From 8f2445c83ba4ad95ba5bab2093dca22f44a03001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 19/24] fix: inverse_covariance was undefined for less than
 three data points

---
 src/bayesbay/_utils_1d.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index f4e8b97..7f83811 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -204,10 +204,13 @@ cpdef inverse_covariance(double sigma, double r, size_t n):
         matrix[i, i] = (1 + r**2) * factor
         matrix[i, i-1] = -r * factor
         matrix[i-1, i] = -r * factor
+    if n == 1:
+        matrix[0, 0] = 1 / sigma**2
+        return np.asarray(matrix)
     matrix[0, 0] = factor
     matrix[n-1, n-1] = factor
-    matrix[i+1, i] = -r * factor
-    matrix[i, i+1] = -r * factor
+    matrix[n-1, n-2] = -r * factor
+    matrix[n-2, n-1] = -r * factor
     return np.asarray(matrix)
     
 
-- 
2.43.0


From 4df27a6b636a5a319098341e36310d7d47d0bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 20/24] fix: the cell extents of one or two Voronoi cells were
 undefined

---
 src/bayesbay/_utils_1d.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index 7f83811..6f11a15 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -43,12 +43,14 @@ def compute_voronoi1d_cell_extents(double[:] sites,
     else:
         istart = 1
         extent[0] = fill_value
+        if size == 1:
+            return np.asarray(extent)
         d1 = (sites[0] + sites[1]) / 2.
     for i in range(istart, size - 1):
         d2 = (sites[i] + sites[i+1]) / 2.
         extent[i] = d2 - d1
         d1 = d2
-    extent[i+1] = ub - d2 if not ub==INFINITY else fill_value
+    extent[size-1] = ub - d1 if not ub==INFINITY else fill_value
     return np.asarray(extent)
 
 
-- 
2.43.0


From a90546cc099dd786c40e17c1a90051202167acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 21/24] fix: fill_value was not attributed to unbounded Voronoi
 cells

---
 src/bayesbay/discretization/_voronoi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index d236776..29f8c3c 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -641,9 +641,15 @@ class Voronoi1D(Voronoi):
         """
         lb = lb if lb is not None else -np.inf
         ub = ub if ub is not None else np.inf
-        return compute_voronoi1d_cell_extents(
+        extents = compute_voronoi1d_cell_extents(
             voronoi_sites, lb=lb, ub=ub, fill_value=fill_value
         )
+        # -ffast-math may drop the comparisons with infinity from the compiled function
+        if np.isinf(lb):
+            extents[0] = fill_value
+        if np.isinf(ub):
+            extents[-1] = fill_value
+        return extents
 
     @staticmethod
     def compute_interface_positions(        
-- 
2.43.0


From edb63c89ebeb8d6dc43935280d69e67e907b3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 22/24] fix: chains advanced by threads could draw the same
 value from a GaussianPrior

---
 src/bayesbay/prior/_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 3ef7ada..782f3c0 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -571,7 +571,7 @@ class GaussianPrior(Prior):
     def sample(self, position: Number = None) -> Number:
         mean = self.get_mean(position)
         std = self.get_std(position)
-        return random.gauss(mean, std)
+        return random.normalvariate(mean, std)  # random.gauss is not thread-safe
 
     def initialize(self, positions: np.ndarray = None) -> np.ndarray:
         r"""initialize the parameter, possibly at specific positions in the 
-- 
2.43.0


From 1decdd2ed4c4f14d3d77069914cb205d719e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 23/24] fix: get_results failed or returned a dictionary for
 states that are not State or dict

dict() was applied to the list of saved states, which raised an exception or, for
states of two elements, silently returned a dictionary.
---
 src/bayesbay/_bayes_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 9f1c9b6..9e6e011 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -321,6 +321,7 @@ class BaseBayesianInversion:
                             results[key].extend(saved_values)
                         else:
                             results[key].append(saved_values)
+            results = dict(results)
         else:
             results = []
             for chain in chains:
@@ -328,7 +329,7 @@ class BaseBayesianInversion:
                     results.extend(chain.saved_states)
                 else:
                     results.append(chain.saved_states)
-        return dict(results)
+        return results
     
     def _init_repr_args(self):
         self._repr_args = {
-- 
2.43.0


From 6dadbc9dfe0593a4b464eb13ca7ba13824c69f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 24/24] fix: sample nested discretizations of a newborn
 position as parameter spaces

ParameterSpace.sample() turned the nested states of a discretization into an
object array, because discretizations are priors as well. The newborn states
were then neither perturbed nor comparable to those made by initialize().
---
 src/bayesbay/parameterization/_parameter_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index 7ff65ce..ca69a8d 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -182,7 +182,7 @@ class ParameterSpace:
         parameter_vals = dict()
         for name, param in self.parameters.items():
             parameter_vals[name] = [param.sample() for _ in range(n_dimensions)]
-            if isinstance(param, Prior):
+            if not isinstance(param, ParameterSpace):
                 parameter_vals[name] = np.array(parameter_vals[name])
         return ParameterSpaceState(n_dimensions, parameter_vals)
 
-- 
2.43.0

