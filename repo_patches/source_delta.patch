From 837a7dcf70fb722670e0c2a09a2778543c50d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 01/14] fix: unnamed DataSet raised NameError instead of
 getting a random name

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 7993f3bef8b514f125db469aa05cdedff77bc95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 02/14] fix: impressions_by_spend was wrong for event logs not
 sorted by spend

---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 402ffa424ba594b8d720bb68177e83e76fe5a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 03/14] fix: a DataSet read from disk overwrote its source
 files when written elsewhere

---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From b6628869045b1c0f093f3a654689fec3b1e414cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 04/14] fix: uniform test points ignored the documented minimum
 number of points

---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..a7857c3 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for i in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From d5ecbe4535bc2f8158e77ee8ecfb4136c47486a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 05/14] fix: a truncated trial result file was taken for a
 complete result

---
 src/driver/experimental_trial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..7e8be44 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -20,6 +20,7 @@ against a specific DataSet, with specific SystemParameters.
 from absl import logging
 from datetime import datetime
 import hashlib
+from io import StringIO
 import numpy as np
 import pandas as pd
 from os.path import isfile, join
@@ -152,7 +153,12 @@ class ExperimentalTrial:
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
-                    return pd.read_csv(file)
+                    text = file.read()
+                previous_result = pd.read_csv(StringIO(text))
+                # An interrupted run may have left a partially written file.
+                if not text.endswith("\n") or len(previous_result) != 1:
+                    raise ValueError("Incomplete result file")
+                return previous_result
             except Exception as e:
                 filesystem.unlink(trial_results_path)
                 logging.vlog(
-- 
2.43.0


From 9aa5ef6868ba7b2f04f887f1029a9193d3283b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:39 +0000
Subject: [PATCH 06/14] fix: Dirac mixture reach overflowed to negative numbers
 above 2^31 people

---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..14ff63d 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -408,7 +408,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
         kplus_reaches = (
             (self._reach_point.universe_size * relative_kplus_reaches_from_zero[1:])
             .round(0)
-            .astype("int32")
+            .astype("int64")
         )
 
         if self._cpi:
-- 
2.43.0


From 07e8f1a92c6f7598ad19209d127c17c1fcdaa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 07/14] fix: restricted pairwise union fit failed when a
 publisher overlaps with no other in the training points

---
 src/models/restricted_pairwise_union_reach_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 3dcb6c1..7e898f9 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -227,6 +227,9 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         """
         us = np.array([self._compute_u(lbd, i, D) for D in self._Ds])
         vs = np.array([self._compute_v(lbd, i, D) for D in self._Ds])
+        if not np.any(vs):
+            # The training points carry no information on this coordinate.
+            return lbd[i]
         lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / np.inner(vs, vs)
         # The above line follows equation (4) in the algorithm description doc.
         if lbd_i_hat < 0:
-- 
2.43.0


From 4d52c629156ab4a056c79c87fa78fc0d92f1bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 08/14] fix: latin hypercube test points depended on numpy's
 global random state

---
 src/driver/latin_hypercube_random_test_point_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..3a09b71 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,6 +78,9 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
+        # pyDOE draws from numpy's global random state.  Seed it, so that the test
+        # points do not depend on what was computed before, e.g. by a model fit.
+        np.random.seed(self._rng.integers(2 ** 32))
         design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
-- 
2.43.0


From 83d7005cb8899614b4f9d1cc66048e475f3e7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:51 +0000
Subject: [PATCH 09/14] fix: the result of a trial depended on which trials had
 been evaluated before it

---
 src/driver/experimental_trial.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 7e8be44..c1e646c 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -18,6 +18,7 @@ against a specific DataSet, with specific SystemParameters.
 """
 
 from absl import logging
+import copy
 from datetime import datetime
 import hashlib
 from io import StringIO
@@ -178,9 +179,13 @@ class ExperimentalTrial:
 
         dataset = self._data_design.by_name(self._data_set_name)
         privacy_tracker = PrivacyTracker()
-        halo = HaloSimulator(
-            dataset, self._trial_descriptor.system_params, privacy_tracker
+        # The random generator may be shared with other trials.  Use a copy, so that
+        # the result does not depend on which trials were evaluated before this one.
+        system_params = self._trial_descriptor.system_params
+        system_params = system_params._replace(
+            generator=copy.deepcopy(system_params.generator)
         )
+        halo = HaloSimulator(dataset, system_params, privacy_tracker)
         privacy_budget = self._trial_descriptor.experiment_params.privacy_budget
         modeling_strategy = (
             self._trial_descriptor.modeling_strategy.instantiate_strategy()
@@ -188,9 +193,7 @@ class ExperimentalTrial:
         single_publisher_dataframe = pd.DataFrame()
         max_frequency = self._trial_descriptor.experiment_params.max_frequency
         try:
-            reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
-            )
+            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)
             test_points = list(
                 self._trial_descriptor.experiment_params.generate_test_points(
                     dataset, rng
-- 
2.43.0


From 3829f01b4aa60a8ee6ac53b68c6293c6771cf0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:04 +0000
Subject: [PATCH 10/14] fix: single publisher analysis failed when nobody was
 reached at the campaign spend

---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index c1e646c..d274651 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -355,7 +355,8 @@ class ExperimentalTrial:
                         (i + 1)
                         for i, f in enumerate(training_point._kplus_reaches)
                         if f != 0
-                    ]
+                    ],
+                    default=0,
                 )
             ]
             if training_point._kplus_reaches
@@ -363,7 +364,12 @@ class ExperimentalTrial:
         )
         data_point = halo.true_reach_by_spend(halo.campaign_spends, max_frequency)
         results["max_nonzero_frequency_from_data"] = (
-            [max([(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0])]
+            [
+                max(
+                    [(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0],
+                    default=0,
+                )
+            ]
             if data_point._kplus_reaches
             else [0]
         )
-- 
2.43.0


From 71e3e2013e164eeba028dad8f2d9609edba222d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:59 +0000
Subject: [PATCH 11/14] fix: a data set written over an earlier one is read
 back as written

---
 src/data_generators/data_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index f8b089f..b10f96c 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -246,6 +246,8 @@ class DataSet:
             pdf_path = filesystem.joinpath(full_dir_path, pdf.name)
             with filesystem.open(pdf_path, "w") as file:
                 pdf.write_publisher_data(file)
+        # What was read from this directory before may no longer be up to date.
+        DataSet.read_data_set.cache_clear()
 
     @classmethod
     @lru_cache(maxsize=128)
-- 
2.43.0


From cc281df6b01920457f189634c57d70e4cc044da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:59 +0000
Subject: [PATCH 12/14] fix: trials with different sketch seeds have different
 names

---
 src/simulator/system_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 2d2a82d..c68c31d 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -66,6 +66,10 @@ class SystemParameters(NamedTuple):
         ll_str = "decay_rate={},sketch_size={}".format(
             self.liquid_legions.decay_rate, self.liquid_legions.sketch_size
         )
+        # The seed determines the hash function of the sketches and so the result.
+        # The default is left out, so that results stored earlier are still found.
+        if self.liquid_legions.random_seed != LiquidLegionsParameters().random_seed:
+            ll_str += ",random_seed={}".format(self.liquid_legions.random_seed)
         return "spends=({}),{}".format(spend_str, ll_str)
 
     def update_from_dataset(self, dataset: DataSet) -> "SystemParameters":
-- 
2.43.0


From 9034dab443b3fae4743bd524d1e834f872b8573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 13/14] fix: stored results of one analysis type were returned
 for another

---
 src/driver/experimental_trial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index d274651..695ee0d 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -257,6 +257,9 @@ class ExperimentalTrial:
 
     def _compute_trial_results_path(self) -> str:
         """Returns path of file where the results of this trial are stored."""
+        if self._analysis_type:
+            # The result has additional columns.
+            return f"{self._experiment_dir}/{self._data_set_name}/{self._analysis_type}/{self._trial_descriptor}.csv"
         return (
             f"{self._experiment_dir}/{self._data_set_name}/{self._trial_descriptor}.csv"
         )
-- 
2.43.0


From 8ec9b8d2e7d8290895d93f09c3c924e9790634d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:04 +0000
Subject: [PATCH 14/14] fix: restricted pairwise union fit did not end with
 many publishers

---
 src/models/restricted_pairwise_union_reach_surface.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 7e898f9..fffcd18 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -38,6 +38,11 @@ NUM_NEAR_THE_WALL = 10
 MIN_NUM_INIT = 30
 MAX_NUM_INIT = 1000
 
+# With many publishers hardly any point of the cube is feasible.  After this many
+# rejections RestrictedPairwiseUnionReachSurface._truncated_uniform_initial_lbd falls
+# back to another sampler.
+MAX_NUM_REJECTIONS = 1000
+
 
 class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
     """Predicts union reach using the restricted pairwise union overlap model.
@@ -363,10 +368,11 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         Return:
           One sample of lbd of the given length.
         """
-        while True:
+        for _ in range(MAX_NUM_REJECTIONS):
             lbd = np.random.rand(p)
             if cls._check_lbd_feasiblity(lbd):
                 return lbd
+        return cls._scaled_from_simplex_initial_lbd(p)
 
     @classmethod
     def _scaled_from_simplex_initial_lbd(cls, p: int, tol: float = 1e-6) -> np.array:
-- 
2.43.0

