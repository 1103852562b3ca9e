From d8c85a491e9da0fd8a3e77d852289205759d50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 01/59] fix: critical values count tied simulated values once
 per occurrence

---
 .../calculator/critical_value_calculator.py       | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..199b7ed 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,8 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        sample = np.asarray_chkfinite(limit_distribution, dtype=float)
+        return float(np.quantile(sample, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +46,8 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        sample = np.asarray_chkfinite(limit_distribution, dtype=float)
+        return float(np.quantile(sample, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +68,9 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
+        sample = np.asarray_chkfinite(limit_distribution, dtype=float)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(sample, q=sl))
+        right = float(np.quantile(sample, q=1 - sl))
 
         return left, right
-- 
2.43.0


From b7fa6b66fe78965b9e8f735eb6e45c7e9fae5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 02/59] fix: CriticalValueLoader.load copies remote data into
 the local storage

---
 .../critical_values/loader/remote_loader.py                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..51fb379 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -34,13 +34,13 @@ class CriticalValueLoader:
         logging.info(f"Load criterion {criterion_code} with size {sample_size} from remote")
         query = CriticalValueQuery(criterion_code, sample_size, sample_size_error)
 
+        if self.__local_storage.get_data_for_cv(query) is not None:
+            return True
+
         if self.__remote_storage is None:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
-            return True
-
         remote_data = self.__remote_storage.get_data_for_cv(query)
         if remote_data is not None:
             self.__local_storage.insert_data(remote_data)
-- 
2.43.0


From 3bb353cfb6f93e9b3794ce7adc50497c50776b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 03/59] fix: load_bulk reports locally cached criteria when
 remote storage is unavailable

---
 .../critical_values/loader/remote_loader.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index 51fb379..0436f28 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -67,10 +67,6 @@ class CriticalValueLoader:
         if not criterion_codes:
             return BulkLoadResult(0, 0, 0, [])
 
-        if self.__remote_storage is None:
-            logging.error("Remote storage not initialized.")
-            return BulkLoadResult(len(criterion_codes), 0, 0, criterion_codes)
-
         # 1. Identify what's already in the local cache
         already_cached = []
         missing_codes = []
@@ -86,6 +82,10 @@ class CriticalValueLoader:
             logging.info("All requested criteria are already in the local cache.")
             return BulkLoadResult(len(criterion_codes), len(already_cached), 0)
 
+        if self.__remote_storage is None:
+            logging.error("Remote storage not initialized.")
+            return BulkLoadResult(len(criterion_codes), len(already_cached), 0, missing_codes)
+
         # 2. Fetch only missing data from remote
         logger.info(f"Fetching {len(missing_codes)} missing criteria from remote...")
         remote_models = self.__remote_storage.get_bulk_data(
-- 
2.43.0


From 594760c63730ef58ce1bcd6512ec42f789c61857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 04/59] fix: load_bulk does not count distributions that local
 storage failed to save

---
 .../critical_values/loader/remote_loader.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index 0436f28..b4dc729 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -93,25 +93,26 @@ class CriticalValueLoader:
         )
 
         # 3. Bulk insert into local
+        newly_cached_count = 0
         try:
             self.__local_storage.insert_bulk_data(remote_models)
+            newly_cached_count = len(remote_models)
             logger.info(f"Successfully cached {len(remote_models)} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
-            pass
 
         # 4. Calculate what's still missing (not found even on remote)
         found_codes = {m.criterion_code for m in remote_models}
         not_found = [c for c in missing_codes if c not in found_codes]
 
         logging.info(
-            f"Bulk load finished: {len(remote_models)} new, "
+            f"Bulk load finished: {newly_cached_count} new, "
             f"{len(already_cached)} skipped, {len(not_found)} failed."
         )
 
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=newly_cached_count,
             not_found_codes=not_found,
         )
-- 
2.43.0


From e3eb493cdc9dd8a27f58b5c2facece4ae0c8466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/59] fix: critical value queries honour the allowed sample
 size error

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..59c1b14 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -164,11 +164,14 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         for the given criterion_code and sample_size,
         """
         with self.Session() as session:
+            min_size = query.sample_size - query.sample_size_error
+            max_size = query.sample_size + query.sample_size_error
+
             stmt = (
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(min_size, max_size),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From 4b54b3cb8ad8deade8d5c45595f6996b11bd5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 06/59] fix: exact queries and deletions work when several
 experiments share a key

---
 .../persistence/sqlalchemy/datastorage.py     | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 59c1b14..8ed58c7 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -77,14 +77,21 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
 
         :param query: LimitDistributionQuery instance containing the search criteria.
 
-        :return: LimitDistributionModel instance if found, otherwise None.
+        :return: LimitDistributionModel instance if found, otherwise None. If several experiments
+        match, the one with the highest experiment_id is returned.
         """
         with self.Session() as session:
-            stmt = select(LimitDistributionORM).where(
-                LimitDistributionORM.criterion_code == query.criterion_code,
-                LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
-                LimitDistributionORM.sample_size == query.sample_size,
-                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+            stmt = (
+                select(LimitDistributionORM)
+                .where(
+                    LimitDistributionORM.criterion_code == query.criterion_code,
+                    LimitDistributionORM.criterion_parameters
+                    == json.dumps(query.criterion_parameters),
+                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+                )
+                .order_by(desc(LimitDistributionORM.experiment_id))
+                .limit(1)
             )
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
@@ -140,6 +147,8 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
     def delete_data(self, query: LimitDistributionQuery) -> None:
         """
         Delete limit distribution data based on the provided query parameters.
+
+        Matching data of every experiment is deleted.
         """
         with self.Session() as session:
             stmt = select(LimitDistributionORM).where(
@@ -148,10 +157,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
+            for obj in session.execute(stmt).scalars().all():
                 session.delete(obj)
-                session.commit()
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From be5815cea66b3a825b8dbc72f34b1b3ac5f828d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 07/59] fix: reject stored float arrays whose header does not
 match their content

---
 .../persistence/sqlalchemy/alchemy_decorator.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 70676ab..431c271 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -69,8 +69,13 @@ class CompressedFloatArray(TypeDecorator):
         if version != self.VERSION:
             raise ValueError(f"Unsupported version: {version}")
 
+        if dtype_code not in (self.DTYPE_FLOAT32, self.DTYPE_FLOAT64):
+            raise ValueError(f"Unsupported dtype code: {dtype_code}")
+
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
         decompressed_bytes = self.decompressor.decompress(compressed)
-        arr = np.frombuffer(decompressed_bytes, dtype=dtype, count=length)
+        arr = np.frombuffer(decompressed_bytes, dtype=dtype)
+        if len(arr) != length:
+            raise ValueError(f"Expected {length} values in the data, found {len(arr)}")
         return arr.tolist()
-- 
2.43.0


From 4e13c71d8983d32feb7109bdcd36533b2366ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 08/59] fix: beta and gamma hypotheses name their parameters as
 the generators do

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py  | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..0e57a64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From 0ae4a116fe791c013d8f9a78a53f3db9b33582b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 09/59] fix: log-normal generator accepts the scale of
 log-normal hypotheses

---
 src/pysatl_criterion/generator/generators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..f05ed6a 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -73,6 +73,8 @@ NormalGenerator
     Normal distribution generator.
 """
 
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -331,12 +333,14 @@ class LognormGenerator(AbstractRVSGenerator):
         Shape parameter.
     mu : float, default=0
         Mean parameter.
+    scale : float, optional
+        Scale parameter ``exp(mu)``. If given, it is used instead of ``mu``.
     """
 
-    def __init__(self, s=1, mu=0, **kwargs):
+    def __init__(self, s=1, mu=0, scale=None, **kwargs):
         super().__init__(**kwargs)
         self.s = s
-        self.mu = mu
+        self.mu = mu if scale is None else math.log(scale)
 
     @override
     def parameters(self) -> dict[str, float]:
-- 
2.43.0


From d8e26bed73a7d844e00592d8722da46add76b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 10/59] fix: Ryan-Joiner normality statistic has a hypothesis

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..25fa2d4 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -553,8 +553,8 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 # https://github.com/puzzle-in-a-mug/normtest
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
-    def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+    def __init__(self, weighted=False, cte_alpha="3/8", mean=0, var=1):
+        super().__init__(mean=mean, var=var)
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From bdd4a2ccd421f127939c1418e369ab7578253eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 11/59] fix: statistics no longer sort the caller's sample in
 place

---
 .../statistics/goodness_of_fit/exponent.py         | 14 +++++++-------
 .../goodness_of_fit/graph_goodness_of_fit.py       |  6 +++---
 .../statistics/goodness_of_fit/normal.py           |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..f726608 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,7 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         rvs = np.array(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
@@ -820,7 +820,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +871,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +922,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1066,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1285,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..9e1cde8 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         right_border = 0
         clique_number = 0
@@ -225,11 +225,11 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 25fa2d4..f5e1169 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -839,7 +839,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
+            x_tmp = np.array(x[:n])
             x_tmp.sort()
             l22 = 0.0
             l32 = 0.0
@@ -907,7 +907,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
+            x_tmp = np.array(x[:n])
             x_tmp.sort()
             l23 = 0.0
             l33 = 0.0
-- 
2.43.0


From 2b3771f1218bb79404615156b8b28a5ad9583ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 12/59] fix: graph clique number counts only vertices of the
 clique

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 9e1cde8..98b2177 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -193,11 +193,9 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         right_border = 0
         clique_number = 0
         for left_border in range(len(rvs)):
+            right_border = max(right_border, left_border + 1)
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
-            if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
-                break
             clique_number = max(clique_number, right_border - left_border)
         return clique_number
 
-- 
2.43.0


From 04c8ccd82099b59715010246fbe37d0bd988b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 13/59] fix: exponential Kolmogorov-Smirnov statistic uses its
 rate parameter

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index f726608..797ec8b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
-- 
2.43.0


From 7ce899463952385512d89f3b92c75f0642037385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 14/59] fix: Weibull Anderson-Darling statistic no longer
 raises TypeError

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..933149a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
-- 
2.43.0


From 26e15cf777ca6e85292aa10836d1305c459fbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 15/59] fix: Weibull shape estimate solves the likelihood
 equation

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 933149a..31d0e9b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -764,7 +764,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         def f1(toto, vect):
             if toto != 0:
                 f1 = np.sum(vect) / len(vect)
-                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) - 1 / toto
+                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) + 1 / toto
             else:
                 f1 = 100
             return abs(f1)
-- 
2.43.0


From 77a7287dd03d51389836c8c1815b1c0b09907a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 16/59] fix: Weibull Laplace transform and Cabana-Quiroz
 statistics use the standardised log-sample

---
 .../statistics/goodness_of_fit/weibull.py      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 31d0e9b..68af8e3 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1273,7 +1273,7 @@ class LaplaceTransformWeibullGofStatistic(AbstractWeibullGofStatistic):
         return RightAlternative()
 
     @override
-    def execute_statistic(self, rvs, m=100, a=-5, _type="LT3_WEIBULL"):
+    def execute_statistic(self, rvs, m=100, a=-5, _type="LT3_WEIBULL_GOODNESS_OF_FIT"):
         """
         Execute the Laplace transform test statistic.
 
@@ -1286,16 +1286,19 @@ class LaplaceTransformWeibullGofStatistic(AbstractWeibullGofStatistic):
         """
         n = len(rvs)
 
-        if _type == "LT2_WEIBULL":
+        if _type == LaplaceTransform2WeibullGofStatistic.code():
             t_values = np.linspace(-m, -1, num=m) / m
 
-        elif _type == "LT3_WEIBULL":
+        elif _type == LaplaceTransform3WeibullGofStatistic.code():
             t_values = np.linspace(-2.5, 0.49, m)
 
         else:
             raise ValueError("type must be LT2_WEIBULL / LT3_WEIBULL")
 
-        exp_matrix = np.exp(-np.outer(rvs, t_values))
+        # Log-sample standardised with the maximum likelihood estimates of the parameters
+        y = WPPWeibullGofStatistic.MLEst(rvs)["y"]
+
+        exp_matrix = np.exp(-np.outer(y, t_values))
 
         col_sums = np.sum(exp_matrix, axis=0)
 
@@ -1441,8 +1444,11 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
 
         n = len(rvs)
 
-        e1 = np.exp(-rvs * s1)
-        e2 = np.exp(-rvs * s2)
+        # Log-sample standardised with the maximum likelihood estimates of the parameters
+        y = WPPWeibullGofStatistic.MLEst(rvs)["y"]
+
+        e1 = np.exp(-y * s1)
+        e2 = np.exp(-y * s2)
 
         mean_e1 = np.mean(e1)
         mean_e2 = np.mean(e2)
-- 
2.43.0


From 61fa96cb7f931eaad848c2ab8e20aab614b70291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 17/59] fix: BHS normality statistic computes the medcouples
 (no hang, no printing)

---
 .../statistics/goodness_of_fit/normal.py       | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index f5e1169..751e7a6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1994,14 +1994,13 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[n // 2 :]
             else:
                 x1 = x_sorted[: (n // 2) + 1]
-                x2 = x_sorted[(n // 2) + 1 :]
+                x2 = x_sorted[n // 2 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
@@ -2091,7 +2090,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # pointer -- corresponding to x2[i] = x[j]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
@@ -2132,7 +2131,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
@@ -2251,7 +2249,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2271,11 +2269,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 21ffdabc6d8901701232f414ba962760418505d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 18/59] fix: normality Kolmogorov-Smirnov and Cramer-von Mises
 statistics use their mean and variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 751e7a6..d97a053 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -88,7 +88,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -220,7 +220,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From 918801c30c43fa3d9b98d09daa28141b0c501e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 19/59] fix: D'Agostino skewness statistic of a symmetric
 sample is zero

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index d97a053..4cd25cb 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -346,7 +346,6 @@ class SkewNormalityGofStatistic(AbstractNormalityGofStatistic):
         w2 = -1 + math.sqrt(2 * (beta2 - 1))
         delta = 1 / math.sqrt(0.5 * math.log(w2))
         alpha = math.sqrt(2.0 / (w2 - 1))
-        y = np.where(y == 0, 1, y)
         z = delta * np.log(y / alpha + np.sqrt((y / alpha) ** 2 + 1))
 
         return z
-- 
2.43.0


From e6786eeb8b6bea8c6a95dd8ee82366a9fa12be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 20/59] fix: Martinez-Iglewicz biweight estimate leaves out
 observations beyond nine MADs

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4cd25cb..05422a7 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1327,8 +1327,9 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
             a = 9.0 * a
 
             z = aux1 / a
-            term1 = np.sum(aux1**2 * (1 - z**2) ** 4)
-            term2 = np.sum((1 - z**2) * (1 - 5 * z**2))
+            inner = np.abs(z) < 1
+            term1 = np.sum((aux1**2 * (1 - z**2) ** 4)[inner])
+            term2 = np.sum(((1 - z**2) * (1 - 5 * z**2))[inner])
             term3 = np.sum(aux1**2)
 
             sb2 = (n * term1) / term2**2
-- 
2.43.0


From 9d7d7fd8e05d93b1b952553234b532b710282d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 21/59] fix: Desgagne-Lafaye normality statistic is finite when
 an observation equals the mean

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 05422a7..71eeddb 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -4,6 +4,7 @@ from abc import ABC
 import numpy as np
 import pandas as pd
 import scipy.stats as scipy_stats
+from scipy.special import xlogy
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -2404,7 +2405,7 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             # Formulas given in our paper p. 169
             for i in range(n):
-                r1 += y[i] ** 2 * np.log(abs(y[i]))
+                r1 += xlogy(y[i] ** 2, abs(y[i]))
                 r2 += np.log(1.0 + abs(y[i]))
                 r3 += np.log(np.log(2.71828182846 + abs(y[i])))
             r1 = 0.18240929 - 0.5 * r1 / n
-- 
2.43.0


From e6bdde90918a9b35c7f330adfa534137afbb9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 22/59] fix: uniform Watson statistic follows Watson's
 definition

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..fb520c9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -350,9 +350,8 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         rvs_standardized = (rvs_sorted - self.a) / (self.b - self.a)
 
         i = np.arange(1, n + 1)
-        fn = i / n
-        mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        w2 = np.sum((rvs_standardized - (i - 0.5) / n) ** 2) + 1 / (12 * n)
+        u2 = w2 - n * (np.mean(rvs_standardized) - 0.5) ** 2
 
         return u2
 
-- 
2.43.0


From a1d5efa38912038fdbed63659952aad6989a1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 23/59] fix: uniform Zhang Z_C and Z_K statistics follow their
 definitions

---
 .../statistics/goodness_of_fit/uniform.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index fb520c9..f1a7262 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -591,14 +591,14 @@ class ZhangTestsUniformGofStatistic(AbstractUniformGofStatistic):
             statistic = -term1 - term2
 
         elif self.test_type == "C":
-            term1 = np.sum((np.log(rvs_std) / (n - i + 0.5)) ** 2)
-            term2 = np.sum((np.log(1 - rvs_std) / (i - 0.5)) ** 2)
-            statistic = term1 + term2
+            statistic = np.sum(
+                np.log((1 / rvs_std - 1) / ((n - 0.5) / (i - 0.75) - 1)) ** 2
+            )
 
         else:
-            term1 = np.sum(np.log(rvs_std / (1 - rvs_std)) / (n - i + 0.5))
-            term2 = np.sum(np.log((1 - rvs_std) / rvs_std) / (i - 0.5))
-            statistic = max(np.abs(term1), np.abs(term2))
+            term1 = (i - 0.5) * np.log((i - 0.5) / (n * rvs_std))
+            term2 = (n - i + 0.5) * np.log((n - i + 0.5) / (n * (1 - rvs_std)))
+            statistic = np.max(term1 + term2)
 
         return statistic
 
-- 
2.43.0


From 9311a0b67964c0628fbd60ccab92b309f7899cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 24/59] fix: Sherman and Quesenberry-Miller statistics use the
 spacings of the standardised sample

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index f1a7262..1e5880e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -908,9 +908,9 @@ class ShermanUniformGofStatistic(AbstractUniformGofStatistic):
 
         x_with_boundaries = np.concatenate([[self.a], x_sorted, [self.b]])
 
-        spacings = np.diff(x_with_boundaries)
+        spacings = np.diff(x_with_boundaries) / (self.b - self.a)
 
-        expected_spacing = (self.b - self.a) / (n + 1)
+        expected_spacing = 1 / (n + 1)
         s = 0.5 * np.sum(np.abs(spacings - expected_spacing))
 
         return s
@@ -960,7 +960,7 @@ class QuesenberryMillerUniformGofStatistic(AbstractUniformGofStatistic):
 
         x_with_boundaries = np.concatenate([[self.a], x_sorted, [self.b]])
 
-        spacings = np.diff(x_with_boundaries)
+        spacings = np.diff(x_with_boundaries) / (self.b - self.a)
 
         sum_squares = np.sum(spacings**2)
 
-- 
2.43.0


From c34e67ced2f7f2dfcf0eea19c22036f3adc15f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 25/59] fix: censored Stein statistic agrees with the
 uncensored one when nothing is censored

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 1e5880e..dde7a0c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -786,7 +786,7 @@ class CensoredSteinUniformGofStatistic(AbstractUniformGofStatistic):
                         count += 1
 
         if count > 0:
-            statistic = 2 * total / count
+            statistic = total / count
         else:
             statistic = 0
 
-- 
2.43.0


From 5ab581934ab1afdd52fb13d35f72feda785e1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 26/59] fix: criteria reject on the side where their statistic
 departs from the hypothesis

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py    | 3 +--
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py   | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py  | 2 +-
 4 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 797ec8b..81732b0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -684,7 +684,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -787,7 +787,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
@@ -1252,7 +1252,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 0e57a64..f69e138 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -11,7 +11,6 @@ from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
 from pysatl_criterion.statistics.alternative import (
     Alternative,
     AlternativeType,
-    LeftAlternative,
     RightAlternative,
     TwoSidedAlternative,
 )
@@ -741,7 +740,7 @@ class ProbabilityPlotCorrelationGammaGofStatistic(AbstractGammaGofStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 71eeddb..3e2b5c6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1856,7 +1856,7 @@ class ZhangQQStarNormalityTest(AbstractNormalityTestStatistic):  # TODO: check f
 class SWRGNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def alternative(self) -> Alternative:
-        return RightAlternative()
+        return LeftAlternative()
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 68af8e3..3423d52 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1000,7 +1000,7 @@ class SPPWeibullGofStatistic(WPPWeibullGofStatistic):
 
     @override
     def alternative(self) -> Alternative:
-        return LeftAlternative()
+        return RightAlternative()
 
     @staticmethod
     @override
-- 
2.43.0


From 0954b70a6f34dcc4fe0874ae0b72fa3e18585187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 27/59] fix: WE exponentiality statistic uses the sample
 variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 81732b0..d95a74c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -1190,7 +1190,7 @@ class WeExponentialityGofStatistic(AbstractExponentialityGofStatistic):
 
         n = len(rvs)
         m = np.mean(rvs)
-        v = np.var(rvs)
+        v = np.var(rvs, ddof=1)
         we = (n - 1) * v / (n**2 * m**2)
 
         return we
-- 
2.43.0


From 4282678892314ff6edff966108019b80c729f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 28/59] fix: Student Zhang Z_C statistic follows its definition

---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..4de5751 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,9 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
-        # Avoid division by zero and log of negative numbers
-        term2 = np.where(term2 <= 0, 1e-10, term2)
+        term2 = (n - 0.5) / (i - 0.75) - 1
         zc = np.sum(np.log(term1 / term2) ** 2)
 
         return zc
-- 
2.43.0


From e84c33108940940620ea97602c197a3146f65d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 29/59] fix: log-normal descriptor names the parameters of the
 log-normal generator

---
 src/pysatl_criterion/distribution/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..f03fd1f 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -265,13 +265,13 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         """
         Return parameters for the log normal distribution.
 
-        :return: descriptors for logarithmic mean and variance.
+        :return: descriptors for the standard deviation and mean of the logarithm.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ", "s", "Standard deviation of logarithm. σ > 0", 1, PositiveNumberValidator()
             ),
+            DistributionParameterDescriptor("μ", "mu", "Mean of logarithm", 0),
         ]
 
 
-- 
2.43.0


From e433bdc4c4c66662b98d5cb1b4010a7b5362eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 30/59] fix: inverse Gaussian, Gompertz and Rice parameters
 have valid defaults and validators

---
 src/pysatl_criterion/core/distributions/invgauss.py | 4 ++--
 src/pysatl_criterion/distribution/distributions.py  | 5 +++--
 src/pysatl_criterion/generator/generators.py        | 8 ++++----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 6b4b2dd..8f84d77 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -1,7 +1,7 @@
 from scipy.stats import invgauss
 
 
-def generate_invgauss(size, mu=0, lam=1):
+def generate_invgauss(size, mu=1, lam=1):
     """
     Generate random samples from the inverse Gaussian (Wald) distribution.
 
@@ -18,7 +18,7 @@ def generate_invgauss(size, mu=0, lam=1):
         returns an array with the specified shape.
     mu : float, optional
         Shape parameter of the distribution. Must be greater than 0.
-        Default is 0.
+        Default is 1.
     lam : float, optional
         Scale parameter of the distribution. Must be greater than 0.
         Default is 1.
diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index f03fd1f..433869d 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -412,7 +412,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
@@ -648,8 +648,9 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "v",
                 "nu",
                 "Distance between the reference point and the center of the bivariate "
-                "distribution. v >= 0,",
+                "distribution. v >= 0",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index f05ed6a..2ecc67d 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -716,13 +716,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
@@ -792,13 +792,13 @@ class GompertzGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    eta : float, default=0
+    eta : float, default=1
         Shape parameter.
     b : float, default=1
         Scale parameter.
     """
 
-    def __init__(self, eta=0, b=1, **kwargs):
+    def __init__(self, eta=1, b=1, **kwargs):
         super().__init__(**kwargs)
         self.eta = eta
         self.b = b
-- 
2.43.0


From 1e17dd74300249aa8ec434874fdc8aa1e541c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 31/59] fix: inverse Gaussian generator draws from the declared
 mean and shape

---
 src/pysatl_criterion/generator/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index 2ecc67d..bce1572 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -746,7 +746,7 @@ class InvGaussGenerator(AbstractRVSGenerator):
     @override
     def generate(self, size):
         """Generate inverse Gaussian random sample."""
-        return generate_invgauss(size=size, mu=self.mu, lam=self.lam)
+        return generate_invgauss(size=size, mu=self.mu / self.lam, lam=self.lam)
 
 
 class RiceGenerator(AbstractRVSGenerator):
-- 
2.43.0


From 8bc009d64fafb8d828300b9ece871556a5ca8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 32/59] fix: Rice samples have the declared distance parameter
 for every scale

---
 src/pysatl_criterion/core/distributions/rice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..59aa558 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -43,4 +43,6 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    if sigma <= 0:
+        raise ValueError("sigma must be positive")
+    return rice.rvs(nu / sigma, size=size, scale=sigma)
-- 
2.43.0


From d6d7f519950084c1b41209f4b13bc60be81435fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 33/59] fix: truncated normal samples lie between the declared
 bounds

---
 src/pysatl_criterion/core/distributions/truncnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..35a509b 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,7 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    std = np.sqrt(var)
+    return truncnorm.rvs(
+        a=(a - mean) / std, b=(b - mean) / std, size=size, loc=mean, scale=std
+    )
-- 
2.43.0


From 5e4da857d7887f93de207230190187eb1b94a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 34/59] fix: Hegazy-Green exponentiality statistics use the
 hypothesised rate

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index d95a74c..aa0ff6d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -718,7 +718,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        x = np.sort(rvs)
+        x = self.lam * np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum(np.abs(x - b))
 
@@ -1285,9 +1285,9 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs = np.sort(rvs)
+        x = self.lam * np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
+        hg = (n ** (-1)) * np.sum((x - b) ** 2)
 
         return hg
 
-- 
2.43.0


From 6615a564258457bc936312ebdee279910fec3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 35/59] fix: normality Cramer-von Mises code names its family

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 3e2b5c6..bf8dc61 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -215,8 +215,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def code():
         short_code = CramerVonMiseNormalityGofStatistic.short_code()
-        base_code = super(AbstractNormalityGofStatistic, AbstractNormalityGofStatistic).code()
-        return f"{short_code}_{base_code}"
+        return f"{short_code}_{AbstractNormalityGofStatistic.code()}"
 
     @override
     def execute_statistic(self, rvs):
-- 
2.43.0


From 158ea8153b004ebfec0aafdaf633a19d0bb37142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 36/59] fix: moment() without a center computes raw moments as
 documented

---
 src/pysatl_criterion/core/distributions/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/sample.py b/src/pysatl_criterion/core/distributions/sample.py
index bb5c087..602ca89 100644
--- a/src/pysatl_criterion/core/distributions/sample.py
+++ b/src/pysatl_criterion/core/distributions/sample.py
@@ -27,7 +27,7 @@ def moment(a, mom=1, center=None):
 
     Notes
     -----
-    When ``center=None``, SciPy computes raw moments.
+    When ``center=None``, raw moments (moments about zero) are computed.
     When ``center`` is specified, it computes central moments.
 
     Examples
@@ -35,7 +35,7 @@ def moment(a, mom=1, center=None):
     >>> moment([1, 2, 3], mom=2)
     array([...])
     """
-    return scipy_moment(a=a, moment=mom, center=center)
+    return scipy_moment(a=a, moment=mom, center=0 if center is None else center)
 
 
 def central_moment(a, mom=1):
-- 
2.43.0


From 29275ca9e871c1b97db759440710f515e577c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 37/59] fix: Weibull likelihood uses the maximum-likelihood
 shape

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From 584a5ccaf8e512a94ffcf76381568a8c0f9a8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 38/59] fix: Weibull likelihood does not overflow on integer
 samples

---
 .../maximum_likelihood/function_for_maximum_likelihood.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..3ec26ed 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -158,7 +158,7 @@ def likelihood_function_weibull(dataArray):
     A = np.mean(np.log(dataArray))
 
     def g(k):
-        xk = dataArray**k
+        xk = dataArray ** float(k)
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
         return 1 / k + A - B
 
-- 
2.43.0


From 6915d6378a03cec5a97edca1ecd02e2cad45b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 39/59] fix: Poisson and geometric likelihoods of boundary
 samples are 1

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 3ec26ed..462a59c 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -507,6 +507,8 @@ def likelihood_function_poisson(dataArray):
 
     sum_x = np.sum(dataArray)
     lam = sum_x / len(dataArray)
+    if lam == 0:
+        return 1
 
     log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
     likelihood = exp(log_likelihood)
@@ -529,6 +531,8 @@ def likelihood_function_geometric(dataArray):
     n = len(dataArray)
     sum_x = np.sum(dataArray)
     p = n / sum_x
+    if p == 1:
+        return 1
 
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
-- 
2.43.0


From f7a8a54feb2cb20fd274f772123dcc310b352750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 40/59] fix: binomial and Poisson likelihoods accept whole
 numbers stored as floats

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 462a59c..467de84 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -487,7 +487,7 @@ def likelihood_function_binomial(dataArray, n):
             return 0
 
     log_likelihood = np.sum(
-        [log(comb(n, x)) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
+        [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
     return exp(log_likelihood)
@@ -510,7 +510,7 @@ def likelihood_function_poisson(dataArray):
     if lam == 0:
         return 1
 
-    log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
+    log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
     likelihood = exp(log_likelihood)
 
     return likelihood
-- 
2.43.0


From 00d8963bd614eae6ac86db396f0d741845cc8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 41/59] fix: discrete uniform likelihood is zero for samples
 that are not whole numbers

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 467de84..b2339c8 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -429,6 +429,9 @@ def likelihood_function_discrete_uniform(dataArray):
     a = np.min(dataArray)
     b = np.max(dataArray)
 
+    if not np.all(np.equal(np.mod(dataArray, 1), 0)):
+        return 0
+
     support_size = b - a + 1
 
     log_likelihood = -len(dataArray) * np.log(support_size)
-- 
2.43.0


From 2adda9e3348b988ddd77004bf95f34168175d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 42/59] fix: normal and log-normal likelihoods of constant
 samples are zero despite rounding

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index b2339c8..12504b2 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -70,7 +70,7 @@ def likelihood_function_normal(dataArray):
     mean = sum(dataArray) / n
 
     variance = sum((x - mean) ** 2 for x in dataArray) / n
-    if variance == 0:
+    if variance == 0 or np.min(dataArray) == np.max(dataArray):
         return 0
 
     log_likelihood = 0
@@ -99,7 +99,7 @@ def likelihood_function_lognormal(dataArray):
     log_data = [log(x) for x in dataArray]
     mean_log = sum(log_data) / n
     variance_log = sum((x - mean_log) ** 2 for x in log_data) / n
-    if variance_log == 0:
+    if variance_log == 0 or np.min(dataArray) == np.max(dataArray):
         return 0
 
     log_likelihood = 0
-- 
2.43.0


From bc60345c52459de483be0cb75358863eae31ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 43/59] fix: Wigner likelihood searches the radius on the scale
 of the sample

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 12504b2..c07d8fc 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -353,8 +353,12 @@ def likelihood_function_wigner(dataArray):
         n = len(dataArray)
         return -(n * log(2 / (pi * R**2)) + 0.5 * np.sum(np.log(R**2 - dataArray**2)))
 
+    # The maximum-likelihood radius lies between max|x| and sqrt(2) * max|x|.
     result = minimize_scalar(
-        neg_log_likelihood, bounds=(max_abs_x + 1e-6, max_abs_x + 10), method="bounded"
+        neg_log_likelihood,
+        bounds=(max_abs_x, 1.5 * max_abs_x),
+        method="bounded",
+        options={"xatol": 1e-9 * max_abs_x},
     )
 
     if not result.success:
-- 
2.43.0


From f6aaedcc221fcba3bdaff28c5c7240656202f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 44/59] fix: Rayleigh likelihood of a sample containing zero is
 zero

---
 .../maximum_likelihood/function_for_maximum_likelihood.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c07d8fc..72d80eb 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -323,7 +323,7 @@ def likelihood_function_rayleigh(dataArray):
 
     :return: likelihood value (0 if any value is negative).
     """
-    if np.any(dataArray < 0):
+    if np.any(dataArray <= 0):
         return 0
 
     params = rayleigh.fit(dataArray, floc=0)
-- 
2.43.0


From 7532e1240df58517d15cc9287ad289f5e086e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 45/59] fix: best-fitting likelihood search can be imported and
 returns its documented result

---
 .../maximum_likelihood/maximum_likelihood.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 3362194..19a1ecb 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -1,8 +1,9 @@
 import inspect
 
-import function_for_maximum_likelihood
 import numpy as np
 
+from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood
+
 
 def find_max_probability_function(data):
     """
@@ -12,8 +13,11 @@ def find_max_probability_function(data):
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
+    data = np.asarray(data)
     functions = [
-        f for _, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        f
+        for name, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        if name.startswith("likelihood_function_") and len(inspect.signature(f).parameters) == 1
     ]
 
     max_func = None
@@ -25,6 +29,9 @@ def find_max_probability_function(data):
             max_probability = result
             max_func = func
 
+    if max_func is None:
+        raise ValueError("No function produces a positive likelihood.")
+
     return max_func
 
 
@@ -39,10 +46,11 @@ def find_result_of_likelihood_function(data):
     """
     data_array = np.array(data)
 
-    if not data_array:
+    if data_array.size == 0:
         raise ValueError("There are no data.")
 
     if not np.issubdtype(data_array.dtype, np.number):
         raise TypeError("Data should be numeric.")
 
-    find_max_probability_function(data)
+    max_func = find_max_probability_function(data_array)
+    return max_func, max_func(data_array)
-- 
2.43.0


From a39ec5bdcef554d41718d420f6f5de89cf932b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 46/59] fix: samplers refuse the non-positive scales they
 document as errors

---
 src/pysatl_criterion/core/distributions/cauchy.py   | 2 ++
 src/pysatl_criterion/core/distributions/gompertz.py | 4 ++++
 src/pysatl_criterion/core/distributions/gumbel.py   | 2 ++
 src/pysatl_criterion/core/distributions/invgauss.py | 4 ++++
 src/pysatl_criterion/core/distributions/laplace.py  | 2 ++
 src/pysatl_criterion/core/distributions/logistic.py | 2 ++
 6 files changed, 16 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/cauchy.py b/src/pysatl_criterion/core/distributions/cauchy.py
index caf41b9..2f88710 100644
--- a/src/pysatl_criterion/core/distributions/cauchy.py
+++ b/src/pysatl_criterion/core/distributions/cauchy.py
@@ -42,4 +42,6 @@ def generate_cauchy(size, t=0.5, s=0.5):
     >>> generate_cauchy(5, t=0.0, s=1.0)
     array([...])
     """
+    if s <= 0:
+        raise ValueError("s must be positive")
     return cauchy.rvs(size=size, loc=t, scale=s)
diff --git a/src/pysatl_criterion/core/distributions/gompertz.py b/src/pysatl_criterion/core/distributions/gompertz.py
index 4e84de8..0e5f92e 100644
--- a/src/pysatl_criterion/core/distributions/gompertz.py
+++ b/src/pysatl_criterion/core/distributions/gompertz.py
@@ -42,4 +42,8 @@ def generate_gompertz(size, eta=1, b=1):
     >>> generate_gompertz(5, eta=1.5, b=2.0)
     array([...])
     """
+    if eta <= 0:
+        raise ValueError("eta must be positive")
+    if b <= 0:
+        raise ValueError("b must be positive")
     return gompertz.rvs(eta, size=size, scale=b)
diff --git a/src/pysatl_criterion/core/distributions/gumbel.py b/src/pysatl_criterion/core/distributions/gumbel.py
index 2e97eb0..462e5ad 100644
--- a/src/pysatl_criterion/core/distributions/gumbel.py
+++ b/src/pysatl_criterion/core/distributions/gumbel.py
@@ -42,4 +42,6 @@ def generate_gumbel(size, mu=0, beta=1):
     >>> generate_gumbel(5, mu=0.0, beta=2.0)
     array([...])
     """
+    if beta <= 0:
+        raise ValueError("beta must be positive")
     return gumbel_r.rvs(size=size, loc=mu, scale=beta)
diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 8f84d77..3ab5ee0 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -44,4 +44,8 @@ def generate_invgauss(size, mu=1, lam=1):
     >>> generate_invgauss(5, mu=1.0, lam=2.0)
     array([...])
     """
+    if mu <= 0:
+        raise ValueError("mu must be positive")
+    if lam <= 0:
+        raise ValueError("lam must be positive")
     return invgauss.rvs(mu, size=size, scale=lam)
diff --git a/src/pysatl_criterion/core/distributions/laplace.py b/src/pysatl_criterion/core/distributions/laplace.py
index f0c8fce..2ce4b02 100644
--- a/src/pysatl_criterion/core/distributions/laplace.py
+++ b/src/pysatl_criterion/core/distributions/laplace.py
@@ -43,4 +43,6 @@ def generate_laplace(size, t=0, s=1):
     >>> generate_laplace(5, t=0.0, s=1.0)
     array([...])
     """
+    if s <= 0:
+        raise ValueError("s must be positive")
     return laplace.rvs(size=size, loc=t, scale=s)
diff --git a/src/pysatl_criterion/core/distributions/logistic.py b/src/pysatl_criterion/core/distributions/logistic.py
index 7ae64cc..ef15ad1 100644
--- a/src/pysatl_criterion/core/distributions/logistic.py
+++ b/src/pysatl_criterion/core/distributions/logistic.py
@@ -43,4 +43,6 @@ def generate_logistic(size, t=0, s=1):
     >>> generate_logistic(5, t=0.0, s=1.0)
     array([...])
     """
+    if s <= 0:
+        raise ValueError("s must be positive")
     return logistic.rvs(size=size, loc=t, scale=s)
-- 
2.43.0


From 77c9d6738911c37416770b3cc1fd4fda80223458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 47/59] fix: exponential and gamma helpers refuse non-positive
 rates with ValueError

---
 src/pysatl_criterion/core/distributions/expon.py | 4 ++++
 src/pysatl_criterion/core/distributions/gamma.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/expon.py b/src/pysatl_criterion/core/distributions/expon.py
index 42390f4..6bab5b7 100644
--- a/src/pysatl_criterion/core/distributions/expon.py
+++ b/src/pysatl_criterion/core/distributions/expon.py
@@ -40,6 +40,8 @@ def generate_expon(size, lam=1):
     >>> generate_expon(5, lam=2)
     array([...])
     """
+    if lam <= 0:
+        raise ValueError("lam must be positive")
     scale = 1 / lam
     return expon.rvs(size=size, scale=scale)
 
@@ -80,5 +82,7 @@ def cdf_expon(rvs, lam=1):
     >>> cdf_expon([0.5, 1.0, 2.0], lam=1)
     array([...])
     """
+    if lam <= 0:
+        raise ValueError("lam must be positive")
     scale = 1 / lam
     return expon.cdf(rvs, scale=scale)
diff --git a/src/pysatl_criterion/core/distributions/gamma.py b/src/pysatl_criterion/core/distributions/gamma.py
index 391c075..0d7d433 100644
--- a/src/pysatl_criterion/core/distributions/gamma.py
+++ b/src/pysatl_criterion/core/distributions/gamma.py
@@ -43,5 +43,9 @@ def generate_gamma(size, alfa=0, beta=1):
     >>> generate_gamma(5, alfa=2.0, beta=3.0)
     array([...])
     """
+    if alfa <= 0:
+        raise ValueError("alfa must be positive")
+    if beta <= 0:
+        raise ValueError("beta must be positive")
     scale = 1 / beta
     return gamma.rvs(a=alfa, size=size, scale=scale)
-- 
2.43.0


From bb0b293a70d2d7c43f6f965ebbe48dec4dab0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 48/59] fix: normal helpers refuse a negative variance instead
 of returning nan

---
 src/pysatl_criterion/core/distributions/norm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/norm.py b/src/pysatl_criterion/core/distributions/norm.py
index b3b4643..5142ad3 100644
--- a/src/pysatl_criterion/core/distributions/norm.py
+++ b/src/pysatl_criterion/core/distributions/norm.py
@@ -41,6 +41,8 @@ def generate_norm(size, mean=0, var=1):
     >>> generate_norm(5, mean=0, var=1)
     array([...])
     """
+    if var < 0:
+        raise ValueError("var must be non-negative")
     return norm.rvs(size=size, loc=mean, scale=np.sqrt(var))
 
 
@@ -77,6 +79,8 @@ def cdf_norm(rvs, mean=0, var=1):
     >>> cdf_norm([0, 1], mean=0, var=1)
     array([...])
     """
+    if var < 0:
+        raise ValueError("var must be non-negative")
     return norm.cdf(rvs, loc=mean, scale=np.sqrt(var))
 
 
@@ -112,4 +116,6 @@ def pdf_norm(rvs, mean=0, var=1):
     >>> pdf_norm([0, 1], mean=0, var=1)
     array([...])
     """
+    if var < 0:
+        raise ValueError("var must be non-negative")
     return norm.pdf(rvs, loc=mean, scale=np.sqrt(var))
-- 
2.43.0


From 33371ded50bcd3155a0cb8170988469a7a5a22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 49/59] fix: uniform sampler refuses an empty interval

---
 src/pysatl_criterion/core/distributions/uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/uniform.py b/src/pysatl_criterion/core/distributions/uniform.py
index f7c4b81..4b6b24c 100644
--- a/src/pysatl_criterion/core/distributions/uniform.py
+++ b/src/pysatl_criterion/core/distributions/uniform.py
@@ -40,5 +40,7 @@ def generate_uniform(size, a=0, b=1):
     >>> generate_uniform(5, a=0, b=10)
     array([...])
     """
+    if b <= a:
+        raise ValueError("b must be greater than a")
     scale = b - a
     return uniform.rvs(size=size, loc=a, scale=scale)
-- 
2.43.0


From 14c72a473549ae268208934dac0700c46baef23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 50/59] fix: contaminated normal samplers refuse invalid
 mixture parameters for every draw

---
 src/pysatl_criterion/core/distributions/mix_con_norm.py   | 4 ++++
 src/pysatl_criterion/core/distributions/scale_con_norm.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pysatl_criterion/core/distributions/mix_con_norm.py b/src/pysatl_criterion/core/distributions/mix_con_norm.py
index 99547d4..382051a 100644
--- a/src/pysatl_criterion/core/distributions/mix_con_norm.py
+++ b/src/pysatl_criterion/core/distributions/mix_con_norm.py
@@ -45,6 +45,10 @@ def generate_mix_con_norm(size, p=0.5, a=0, b=1) -> list[float]:
     >>> generate_mix_con_norm(5, p=0.3, a=2, b=0.5)
     [ ... ]
     """
+    if not 0 <= p <= 1:
+        raise ValueError("p must be in [0, 1]")
+    if b <= 0:
+        raise ValueError("b must be positive")
     result = []
     for i in range(size):
         choice = np.random.choice(np.arange(2), p=[p, 1 - p])
diff --git a/src/pysatl_criterion/core/distributions/scale_con_norm.py b/src/pysatl_criterion/core/distributions/scale_con_norm.py
index 7ea71c9..e3eb63e 100644
--- a/src/pysatl_criterion/core/distributions/scale_con_norm.py
+++ b/src/pysatl_criterion/core/distributions/scale_con_norm.py
@@ -44,6 +44,10 @@ def generate_scale_con_norm(size, p=0.5, b=0) -> list[float]:
     >>> generate_scale_con_norm(5, p=0.3, b=2.0)
     [ ... ]
     """
+    if not 0 <= p <= 1:
+        raise ValueError("p must be in [0, 1]")
+    if b < 0:
+        raise ValueError("b must be non-negative")
     result = []
     for i in range(size):
         choice = np.random.choice(np.arange(2), p=[p, 1 - p])
-- 
2.43.0


From e0d9ce8fa2f873fe645c1ec69f420eeee79ee35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 51/59] fix: normal, log-normal and exponential likelihoods add
 log-densities, which do not underflow

---
 .../function_for_maximum_likelihood.py             | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 72d80eb..ffb597b 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -1,4 +1,4 @@
-from math import comb, exp, factorial, log, pi, sqrt
+from math import comb, exp, factorial, log, pi
 
 import numpy as np
 from scipy.optimize import minimize_scalar, root_scalar
@@ -75,8 +75,7 @@ def likelihood_function_normal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / sqrt(2 * pi * variance)) * exp(-((x - mean) ** 2) / (2 * variance))
-        log_likelihood += log(prob_density)
+        log_likelihood -= 0.5 * log(2 * pi * variance) + (x - mean) ** 2 / (2 * variance)
 
     likelihood = exp(log_likelihood)
 
@@ -104,10 +103,8 @@ def likelihood_function_lognormal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / (x * sqrt(2 * pi * variance_log))) * exp(
-            -((log(x) - mean_log) ** 2) / (2 * variance_log)
-        )
-        log_likelihood += log(prob_density)
+        log_likelihood -= log(x) + 0.5 * log(2 * pi * variance_log)
+        log_likelihood -= (log(x) - mean_log) ** 2 / (2 * variance_log)
 
     likelihood = exp(log_likelihood)
 
@@ -135,8 +132,7 @@ def likelihood_function_exponential(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = lam * exp(-lam * x)
-        log_likelihood += log(prob_density)
+        log_likelihood += log(lam) - lam * x
 
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 4634bfbc6f8990c698571c9fc7b8caa5cc067f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 52/59] fix: likelihoods beyond the double range are infinite
 instead of raising OverflowError

---
 .../function_for_maximum_likelihood.py             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index ffb597b..db23a40 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -51,7 +51,7 @@ def likelihood_function_uniform_continuous(dataArray):
         return 0
 
     log_likelihood = -len(dataArray) * log(b - a)
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -77,7 +77,7 @@ def likelihood_function_normal(dataArray):
     for x in dataArray:
         log_likelihood -= 0.5 * log(2 * pi * variance) + (x - mean) ** 2 / (2 * variance)
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -106,7 +106,7 @@ def likelihood_function_lognormal(dataArray):
         log_likelihood -= log(x) + 0.5 * log(2 * pi * variance_log)
         log_likelihood -= (log(x) - mean_log) ** 2 / (2 * variance_log)
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -134,7 +134,7 @@ def likelihood_function_exponential(dataArray):
     for x in dataArray:
         log_likelihood += log(lam) - lam * x
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -219,7 +219,7 @@ def likelihood_function_beta(dataArray):
         + (beta_param - 1) * np.sum(np.log(1 - dataArray))
     )
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -360,7 +360,7 @@ def likelihood_function_wigner(dataArray):
     if not result.success:
         return 0
 
-    return exp(-result.fun)
+    return np.exp(-result.fun)
 
 
 # 14.Pareto distribution
@@ -390,7 +390,7 @@ def likelihood_function_pareto(dataArray):
         n * np.log(alpha) + n * alpha * np.log(x_m) - (alpha + 1) * np.sum(np.log(dataArray))
     )
 
-    return exp(log_likelihood)
+    return np.exp(log_likelihood)
 
 
 # 15.Laplace distribution
-- 
2.43.0


From d22075c0ed2c7569d6d3c16312e9a83073473344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 53/59] fix: Weibull likelihood multiplies in the log domain
 and solves in units of the sample

---
 .../function_for_maximum_likelihood.py        | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index db23a40..c484d87 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -151,11 +151,16 @@ def likelihood_function_weibull(dataArray):
     if np.any(dataArray <= 0):
         return 0
 
-    A = np.mean(np.log(dataArray))
+    # The shape equation does not depend on the unit of measurement; solving it in units of the
+    # largest value keeps the powers within the double range.
+    unit = np.log(np.max(dataArray))
+    log_data = np.log(dataArray) - unit
+
+    A = np.mean(log_data)
 
     def g(k):
-        xk = dataArray ** float(k)
-        B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
+        xk = np.exp(k * log_data)
+        B = np.sum(xk * log_data) / np.sum(xk)
         return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
@@ -164,12 +169,13 @@ def likelihood_function_weibull(dataArray):
     res = root_scalar(g, bracket=[0.1, 10], method="bisect")
     k = res.root
 
-    lam = (np.mean(dataArray**k)) ** (1 / k)
-    likelihood = np.prod(
-        (k / lam) * (dataArray / lam) ** (k - 1) * np.exp(-((dataArray / lam) ** k))
+    log_lam = np.log(np.mean(np.exp(k * log_data))) / k
+    log_ratio = log_data - log_lam
+    log_likelihood = np.sum(
+        np.log(k) - log_lam - unit + (k - 1) * log_ratio - np.exp(k * log_ratio)
     )
 
-    return likelihood
+    return np.exp(log_likelihood)
 
 
 # 6.Gamma distribution
-- 
2.43.0


From 01e632e93eba77fb1be6fb5d507729712f29b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 54/59] fix: compressed columns share no zstd context between
 threads, which corrupted stored arrays or crashed

---
 .../persistence/sqlalchemy/alchemy_decorator.py            | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 431c271..4b23836 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -24,8 +24,6 @@ class CompressedFloatArray(TypeDecorator):
         """
         super().__init__()
         self.use_float32 = use_float32
-        self.compressor = zstd.ZstdCompressor()
-        self.decompressor = zstd.ZstdDecompressor()
 
     def process_bind_param(self, value: list[float] | None, dialect):
         """
@@ -42,7 +40,8 @@ class CompressedFloatArray(TypeDecorator):
         dtype_code = self.DTYPE_FLOAT32 if self.use_float32 else self.DTYPE_FLOAT64
 
         arr = np.asarray(value, dtype=dtype)
-        compressed = self.compressor.compress(arr.tobytes())
+        # One column type serves every session, and zstd contexts must not be shared between threads
+        compressed = zstd.ZstdCompressor().compress(arr.tobytes())
 
         # header: version(1B), dtype_code(1B), length(4B)
         header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr))
@@ -74,7 +73,7 @@ class CompressedFloatArray(TypeDecorator):
 
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
-        decompressed_bytes = self.decompressor.decompress(compressed)
+        decompressed_bytes = zstd.ZstdDecompressor().decompress(compressed)
         arr = np.frombuffer(decompressed_bytes, dtype=dtype)
         if len(arr) != length:
             raise ValueError(f"Expected {length} values in the data, found {len(arr)}")
-- 
2.43.0


From f8c57e11e101802acc5bd8a23e68715e6fa502f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 55/59] fix: Kullback-Leibler log-normality statistics centre
 the logs, so that powers do not overflow

---
 .../statistics/goodness_of_fit/log_normal.py          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 7afe59b..09d4aee 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -258,9 +258,9 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         log_rvs = np.log(rvs)
         sigma_hat = np.std(log_rvs, ddof=0)  # MLE
 
-        # Transform data
-        Y = rvs ** (1 / sigma_hat)
-        logY = np.log(Y)
+        # Transform data (centred logs: the statistic is scale invariant and powers stay in range)
+        logY = (log_rvs - np.mean(log_rvs)) / sigma_hat
+        Y = np.exp(logY)
 
         mean_logY = np.mean(logY)
         mean_logY2 = np.mean(logY**2)
@@ -385,8 +385,9 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         log_rvs = np.log(rvs)
         sigma_hat = np.std(log_rvs, ddof=0)
 
-        Y = rvs ** (1 / sigma_hat)
-        logY = np.log(Y)
+        # Centred logs: the statistic is scale invariant and powers stay in range
+        logY = (log_rvs - np.mean(log_rvs)) / sigma_hat
+        Y = np.exp(logY)
 
         mean_logY = np.mean(logY)
         mean_logY2 = np.mean(logY**2)
-- 
2.43.0


From 216fc0873cc3b93daade2a0905edd27bb5093ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 56/59] fix: Spiegelhalter statistic does not overflow for
 large samples

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index bf8dc61..d722c2d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2357,7 +2357,9 @@ class SpiegelhalterNormalityGofStatistic(AbstractNormalityGofStatistic):
                     / (2 * math.e)
                 )  # Stirling approximation
 
-            stat_sp = ((cn * u) ** (-(n - 1)) + g ** (-(n - 1))) ** (1 / (n - 1))
+            # The smaller base is factored out: its (n - 1)-th power overflows for large samples
+            low = min(cn * u, g)
+            stat_sp = ((low / (cn * u)) ** (n - 1) + (low / g) ** (n - 1)) ** (1 / (n - 1)) / low
 
             return stat_sp  # Here is the test statistic value
 
-- 
2.43.0


From f210362dffcc9fec26e1b213354a634ab15681ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:59 +0000
Subject: [PATCH 57/59] fix: statistics of integer arrays do not overflow or
 wrap around

---
 .../statistics/goodness_of_fit/exponent.py            |  7 ++++---
 .../statistics/goodness_of_fit/log_normal.py          |  4 ++--
 .../statistics/goodness_of_fit/normal.py              | 11 +++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index aa0ff6d..8fcc78a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -201,6 +201,7 @@ class AhsanullahExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Ahsanullah test statistic value.
         """
 
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         h = 0
         g = 0
@@ -510,7 +511,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
 
         n = len(rvs)
         rvs = np.sort(rvs)
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -564,7 +565,7 @@ class GiniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         a = np.arange(1, n)
         b = np.arange(n - 1, 0, -1)
         a = a * b
-        x = np.sort(rvs)
+        x = np.sort(np.asarray(rvs, dtype=float))
         k = x[1:] - x[:-1]
         gini = np.sum(k * a) / ((n - 1) * np.sum(x))
 
@@ -922,7 +923,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 09d4aee..307dfdb 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -247,7 +247,7 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Supremum test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -375,7 +375,7 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Integral test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index d722c2d..7fe724e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -676,6 +676,7 @@ class EppsPulleyNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         x = np.sort(rvs)
         x_mean = np.mean(x)
@@ -771,7 +772,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat10(rvs)
+        return self.stat10(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat10(x):
@@ -1172,6 +1173,7 @@ class BontempsMeddahi1NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
 
         if n > 3:
@@ -1604,7 +1606,7 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat30(rvs)
+        return self.stat30(np.asarray(rvs, dtype=float))
 
     def stat30(self, x):
         n = len(x)
@@ -1743,6 +1745,7 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         if n > 3:
             xs = np.sort(rvs)  # We sort the data
@@ -1981,7 +1984,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat16(rvs)
+        return self.stat16(np.asarray(rvs, dtype=float))
 
     def stat16(self, x):
         n = len(x)
@@ -2382,7 +2385,7 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat35(rvs)
+        return self.stat35(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat35(x):
-- 
2.43.0


From be21966fa1734312fa7c5b951f73ed58896a8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 58/59] fix: normality statistics centre the sample before
 taking its variance

---
 .../statistics/goodness_of_fit/normal.py               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 7fe724e..ff4bdab 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1174,6 +1174,7 @@ class BontempsMeddahi1NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.asarray(rvs, dtype=float)
+        rvs = rvs - np.mean(rvs)  # a large mean would cancel the variance
         n = len(rvs)
 
         if n > 3:
@@ -1606,7 +1607,9 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat30(np.asarray(rvs, dtype=float))
+        rvs = np.asarray(rvs, dtype=float)
+        # Centred, so that a large mean does not cancel the variance
+        return self.stat30(rvs - np.mean(rvs))
 
     def stat30(self, x):
         n = len(x)
@@ -1746,6 +1749,7 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.asarray(rvs, dtype=float)
+        rvs = rvs - np.mean(rvs)  # a large mean would cancel the variance
         n = len(rvs)
         if n > 3:
             xs = np.sort(rvs)  # We sort the data
@@ -2385,7 +2389,9 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat35(np.asarray(rvs, dtype=float))
+        rvs = np.asarray(rvs, dtype=float)
+        # Centred, so that a large mean does not cancel the variance
+        return self.stat35(rvs - np.mean(rvs))
 
     @staticmethod
     def stat35(x):
-- 
2.43.0


From 74633c60092cdeec44ad7ae1435862aaf48a42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 59/59] fix: integer samples near the end of their type's range
 do not overflow

---
 .../statistics/goodness_of_fit/exponent.py       |  5 +++--
 .../statistics/goodness_of_fit/normal.py         |  4 ++--
 .../statistics/goodness_of_fit/student.py        | 16 ++++++++--------
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 8fcc78a..d476590 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -719,7 +719,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        x = self.lam * np.sort(rvs)
+        x = self.lam * np.sort(np.asarray(rvs, dtype=float))
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum(np.abs(x - b))
 
@@ -767,6 +767,7 @@ class HollanderProshanExponentialityGofStatistic(AbstractExponentialityGofStatis
         :return: Hollander-Proshan test statistic value.
         """
 
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         t = 0
         for i in range(n):
@@ -1286,7 +1287,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        x = self.lam * np.sort(rvs)
+        x = self.lam * np.sort(np.asarray(rvs, dtype=float))
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((x - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index ff4bdab..97611ee 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1306,7 +1306,7 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat32(rvs)
+        return self.stat32(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat32(x):
@@ -1917,7 +1917,7 @@ class GMGNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat33(rvs)
+        return self.stat33(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat33(x):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 4de5751..833400a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -110,7 +110,7 @@ class KolmogorovSmirnovStudentGofStatistic(AbstractStudentGofStatistic, KSStatis
         :param rvs: array of sample data.
         :return: Kolmogorov-Smirnov test statistic value.
         """
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = scipy_stats.t.cdf(standardized, self.df)
@@ -151,7 +151,7 @@ class AndersonDarlingStudentGofStatistic(AbstractStudentGofStatistic, ADStatisti
         :param rvs: array of sample data.
         :return: Anderson-Darling test statistic value.
         """
-        y = np.sort(rvs)
+        y = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (y - self.loc) / self.scale
         logcdf = scipy_stats.t.logcdf(standardized, self.df)
@@ -193,7 +193,7 @@ class CramerVonMisesStudentGofStatistic(AbstractStudentGofStatistic, CrammerVonM
         :param rvs: array of sample data.
         :return: Cramer-von Mises test statistic value.
         """
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = scipy_stats.t.cdf(standardized, self.df)
@@ -239,7 +239,7 @@ class KuiperStudentGofStatistic(AbstractStudentGofStatistic):
         :return: Kuiper's test statistic value (D+ + D-).
         """
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = scipy_stats.t.cdf(standardized, self.df)
@@ -290,7 +290,7 @@ class WatsonStudentGofStatistic(AbstractStudentGofStatistic):
         :return: Watson's U^2 test statistic value.
         """
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = scipy_stats.t.cdf(standardized, self.df)
@@ -347,7 +347,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         :return: Zhang's Zc test statistic value.
         """
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = self._cdf_clipped(standardized)
@@ -400,7 +400,7 @@ class ZhangZaStudentGofStatistic(AbstractStudentGofStatistic):
         :return: Zhang's Za test statistic value.
         """
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         # Standardize the data
         standardized = (rvs - self.loc) / self.scale
         cdf_vals = self._cdf_clipped(standardized)
@@ -507,7 +507,7 @@ class ChiSquareStudentGofStatistic(AbstractStudentGofStatistic):
         """
         n = len(rvs)
         # Standardize the data
-        standardized = (np.array(rvs) - self.loc) / self.scale
+        standardized = (np.asarray(rvs, dtype=float) - self.loc) / self.scale
 
         # Create bin edges based on quantiles of the t-distribution
         bin_edges = scipy_stats.t.ppf(np.linspace(0, 1, self.n_bins + 1), self.df)
-- 
2.43.0

