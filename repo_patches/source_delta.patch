From d815b9f772668c71d7c6736b9acd935e5ef702a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 01/39] fix: exact lookup and delete with several experiments
 under one query key

get_data and delete_data raised MultipleResultsFound as soon as two
experiments had stored the same code, parameters, size and count.
---
 .../persistence/sqlalchemy/datastorage.py     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..f55e2cb 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -80,11 +80,18 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         :return: LimitDistributionModel instance if found, otherwise None.
         """
         with self.Session() as session:
-            stmt = select(LimitDistributionORM).where(
-                LimitDistributionORM.criterion_code == query.criterion_code,
-                LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
-                LimitDistributionORM.sample_size == query.sample_size,
-                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+            # Several experiments may have stored the same key: take the latest one.
+            stmt = (
+                select(LimitDistributionORM)
+                .where(
+                    LimitDistributionORM.criterion_code == query.criterion_code,
+                    LimitDistributionORM.criterion_parameters
+                    == json.dumps(query.criterion_parameters),
+                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
+                )
+                .order_by(desc(LimitDistributionORM.experiment_id))
+                .limit(1)
             )
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
@@ -148,10 +155,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
+            for obj in session.execute(stmt).scalars().all():
                 session.delete(obj)
-                session.commit()
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 9a3c04b1c446f209ddc8ec548fe0755d7e381ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 02/39] fix: honour sample_size_error in the critical-value
 query

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index f55e2cb..745c761 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -170,11 +170,14 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         for the given criterion_code and sample_size,
         """
         with self.Session() as session:
+            min_size = query.sample_size - query.sample_size_error
+            max_size = query.sample_size + query.sample_size_error
+
             stmt = (
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(min_size, max_size),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From b8acbc68378c22056cfaea9b9bd7fd75cce13e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 03/39] fix: load() looks for a cached distribution in the
 local storage

It asked the remote storage instead and returned True without ever copying
the distribution into the local cache.
---
 .../hypothesis_testing/critical_values/loader/remote_loader.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..5f8f774 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -38,7 +38,7 @@ class CriticalValueLoader:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
+        if self.__local_storage.get_data_for_cv(query):
             return True
 
         remote_data = self.__remote_storage.get_data_for_cv(query)
-- 
2.43.0


From ace5cbac35d8c0e69c8c714ba645318a7d538a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 04/39] fix: load_bulk does not count codes it failed to store
 as newly cached

---
 .../critical_values/loader/remote_loader.py               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index 5f8f774..96a5488 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -93,9 +93,11 @@ class CriticalValueLoader:
         )
 
         # 3. Bulk insert into local
+        newly_cached_count = 0
         try:
             self.__local_storage.insert_bulk_data(remote_models)
-            logger.info(f"Successfully cached {len(remote_models)} new distributions.")
+            newly_cached_count = len(remote_models)
+            logger.info(f"Successfully cached {newly_cached_count} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
             pass
@@ -105,13 +107,13 @@ class CriticalValueLoader:
         not_found = [c for c in missing_codes if c not in found_codes]
 
         logging.info(
-            f"Bulk load finished: {len(remote_models)} new, "
+            f"Bulk load finished: {newly_cached_count} new, "
             f"{len(already_cached)} skipped, {len(not_found)} failed."
         )
 
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=newly_cached_count,
             not_found_codes=not_found,
         )
-- 
2.43.0


From 7c2eceae9853490e10fc90d41e7c289a45354ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 05/39] fix: Sidak adjustments keep p-values too small for 1 -
 p

1 - (1 - p)^m returned 0 for p below the rounding of 1 - p, an adjusted
p-value smaller than the raw one.
---
 .../hypothesis_testing/multiple_testing/fwer.py       | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
index 051c182..9833b17 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
@@ -1,8 +1,15 @@
+import math
+
 from pysatl_criterion.hypothesis_testing.multiple_testing.abstract_multiple_testing import (
     AbstractMultipleTesting,
 )
 
 
+def _sidak(p_value: float, m: int) -> float:
+    # 1 - (1 - p)^m without losing p-values too small for 1 - p to represent
+    return -math.expm1(m * math.log1p(-p_value)) if p_value < 1 else 1.0
+
+
 class BonferroniMultipleTesting(AbstractMultipleTesting):
     """
     Bonferroni correction method for multiple testing.
@@ -52,7 +59,7 @@ class SidakMultipleTesting(AbstractMultipleTesting):
 
         cls._validate_p_values(p_values)
         m = len(p_values)
-        p_values_adjusted = [1 - (1 - p_value) ** m for p_value in p_values]
+        p_values_adjusted = [_sidak(p_value, m) for p_value in p_values]
         return p_values_adjusted
 
     @classmethod
@@ -121,4 +128,4 @@ class SidakHolm(AbstractMultipleTesting):
         n = len(p_values)
         if n == 0:
             return []
-        return [min(1.0, 1 - (1 - p) ** n) for p in p_values]
+        return [_sidak(p, n) for p in p_values]
-- 
2.43.0


From 7d831177a360a861e71559ec3eff4a91e8a97931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 06/39] fix: critical values count every simulated value as
 often as it occurs

The quantiles were taken over the distinct values of the limit distribution,
so ties (discrete statistics) moved the critical values.
---
 .../calculator/critical_value_calculator.py          | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..cb888b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return float(np.quantile(limit_distribution, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +45,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return float(np.quantile(limit_distribution, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +66,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(limit_distribution, q=sl))
+        right = float(np.quantile(limit_distribution, q=1 - sl))
 
         return left, right
-- 
2.43.0


From d0c420cc5bc5cb38d227156a401662fc7aef7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 07/39] fix: storage resolver finds limit distributions of any
 Monte-Carlo count

---
 .../hypothesis_testing/limit_distribution/base.py        | 9 ++++-----
 .../persistence/models/limit_distribution.py             | 1 +
 .../persistence/sqlalchemy/datastorage.py                | 5 +++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
index 9cf06de..75db5e5 100644
--- a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
+++ b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
@@ -4,8 +4,8 @@ import numpy as np
 from typing_extensions import override
 
 from pysatl_criterion.persistence.models.limit_distribution import (
+    CriticalValueQuery,
     ILimitDistributionStorage,
-    LimitDistributionQuery,
 )
 from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
 from pysatl_criterion.utils.generator import get_available_generator
@@ -106,12 +106,11 @@ class StorageLimitDistributionResolver(AbstractLimitDistributionResolver):
         :param sample_size: sample size used for the stored distribution.
         :return: stored statistic values, or None if no distribution is found.
         """
-        limit_distribution = self.limit_distribution_storage.get_data(
-            LimitDistributionQuery(
+        limit_distribution = self.limit_distribution_storage.get_data_for_cv(
+            CriticalValueQuery(
                 criterion_code=statistic.code(),
-                criterion_parameters=statistic.hypothesis().parameters(),
                 sample_size=sample_size,
-                monte_carlo_count=1,
+                criterion_parameters=statistic.hypothesis().parameters(),
             )
         )
 
diff --git a/src/pysatl_criterion/persistence/models/limit_distribution.py b/src/pysatl_criterion/persistence/models/limit_distribution.py
index 9fc2064..cd005ab 100644
--- a/src/pysatl_criterion/persistence/models/limit_distribution.py
+++ b/src/pysatl_criterion/persistence/models/limit_distribution.py
@@ -51,6 +51,7 @@ class CriticalValueQuery(DataQuery):
     criterion_code: str
     sample_size: int
     sample_size_error: int = 0
+    criterion_parameters: list[float] | None = None
 
 
 class ILimitDistributionStorage(IDataStorage[LimitDistributionModel, LimitDistributionQuery], ABC):
diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 745c761..6b7e376 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -182,5 +182,10 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
             )
+            if query.criterion_parameters is not None:
+                stmt = stmt.where(
+                    LimitDistributionORM.criterion_parameters
+                    == json.dumps(query.criterion_parameters)
+                )
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
-- 
2.43.0


From 8e2cd17bf2564824450e72b4090c7fc0533aa75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 08/39] fix: inverse Gaussian, Rice and truncated normal
 generators honour mean, sigma and bounds

---
 src/pysatl_criterion/core/distributions/rice.py        | 2 +-
 src/pysatl_criterion/core/distributions/truncnormal.py | 3 ++-
 src/pysatl_criterion/generator/generators.py           | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..f6b7a0a 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -43,4 +43,4 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    return rice.rvs(nu / sigma, size=size, scale=sigma)
diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..02f83f8 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,5 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    std = np.sqrt(var)
+    return truncnorm.rvs(a=(a - mean) / std, b=(b - mean) / std, size=size, loc=mean, scale=std)
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..e52f03d 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -742,7 +742,7 @@ class InvGaussGenerator(AbstractRVSGenerator):
     @override
     def generate(self, size):
         """Generate inverse Gaussian random sample."""
-        return generate_invgauss(size=size, mu=self.mu, lam=self.lam)
+        return generate_invgauss(size=size, mu=self.mu / self.lam, lam=self.lam)
 
 
 class RiceGenerator(AbstractRVSGenerator):
-- 
2.43.0


From cf17e99f9601fbcca309dcee34dfe2c86109189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 09/39] fix: inverse Gaussian, Gompertz and gamma defaults lie
 inside the parameter domain

---
 src/pysatl_criterion/core/distributions/gamma.py    | 4 ++--
 src/pysatl_criterion/core/distributions/invgauss.py | 4 ++--
 src/pysatl_criterion/distribution/distributions.py  | 2 +-
 src/pysatl_criterion/generator/generators.py        | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/gamma.py b/src/pysatl_criterion/core/distributions/gamma.py
index 391c075..78d128e 100644
--- a/src/pysatl_criterion/core/distributions/gamma.py
+++ b/src/pysatl_criterion/core/distributions/gamma.py
@@ -1,7 +1,7 @@
 from scipy.stats import gamma
 
 
-def generate_gamma(size, alfa=0, beta=1):
+def generate_gamma(size, alfa=1, beta=1):
     """
     Generate random samples from the Gamma distribution.
 
@@ -18,7 +18,7 @@ def generate_gamma(size, alfa=0, beta=1):
         returns an array with the specified shape.
     alfa : float, optional
         Shape parameter (α) of the Gamma distribution.
-        Must be greater than 0. Default is 0.
+        Must be greater than 0. Default is 1.
     beta : float, optional
         Rate parameter (β) of the Gamma distribution.
         Must be greater than 0. Default is 1.
diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 6b4b2dd..8f84d77 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -1,7 +1,7 @@
 from scipy.stats import invgauss
 
 
-def generate_invgauss(size, mu=0, lam=1):
+def generate_invgauss(size, mu=1, lam=1):
     """
     Generate random samples from the inverse Gaussian (Wald) distribution.
 
@@ -18,7 +18,7 @@ def generate_invgauss(size, mu=0, lam=1):
         returns an array with the specified shape.
     mu : float, optional
         Shape parameter of the distribution. Must be greater than 0.
-        Default is 0.
+        Default is 1.
     lam : float, optional
         Scale parameter of the distribution. Must be greater than 0.
         Default is 1.
diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..bb4608f 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -412,7 +412,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index e52f03d..7a80e49 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -712,13 +712,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
@@ -788,13 +788,13 @@ class GompertzGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    eta : float, default=0
+    eta : float, default=1
         Shape parameter.
     b : float, default=1
         Scale parameter.
     """
 
-    def __init__(self, eta=0, b=1, **kwargs):
+    def __init__(self, eta=1, b=1, **kwargs):
         super().__init__(**kwargs)
         self.eta = eta
         self.b = b
-- 
2.43.0


From 74f012b1871079e452b5c25a9701654f2482219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 10/39] fix: the criterion registry loads the statistics it
 lists

---
 src/pysatl_criterion/utils/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index a093d06..15e428b 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -1,3 +1,4 @@
+import importlib
 import inspect
 from typing import Any
 
@@ -20,6 +21,7 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
+    importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")
     return [
         cls.short_code()
         for cls in __get_all_subclasses(AbstractGoodnessOfFitStatistic)
-- 
2.43.0


From 7f6a26beb9bff44ee639ab24dd8e1ac45b44f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 11/39] fix: name the parameters of gamma, beta and log-normal
 hypotheses as their generators do

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py       | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py      | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..0e57a64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 7afe59b..c82b1c9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -33,7 +33,7 @@ class AbstractLogNormalGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"s": self.s, "scale": self.scale})
+        return GoodnessOfFitHypothesis({"s": self.s, "mu": float(np.log(self.scale))})
 
     @staticmethod
     @override
-- 
2.43.0


From 2d760df9e1f371030247b9c26bcfd7424d5df5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 12/39] fix: log-normal and Rice descriptors match the
 generators' parameters

---
 src/pysatl_criterion/distribution/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index bb4608f..1a2620c 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -265,13 +265,13 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         """
         Return parameters for the log normal distribution.
 
-        :return: descriptors for logarithmic mean and variance.
+        :return: descriptors for the shape and the logarithmic mean.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ", "s", "Standard deviation of logarithm. σ > 0", 1, PositiveNumberValidator()
             ),
+            DistributionParameterDescriptor("μ", "mu", "Mean of logarithm", 0),
         ]
 
 
@@ -650,6 +650,7 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "Distance between the reference point and the center of the bivariate "
                 "distribution. v >= 0,",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
-- 
2.43.0


From 4175d18aaf424e229eb6f3bee1c9a5dc268dd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 13/39] fix: Ryan-Joiner has a null hypothesis and Cramer-von
 Mises normality a normality code

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..ad953ba 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -214,8 +214,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def code():
         short_code = CramerVonMiseNormalityGofStatistic.short_code()
-        base_code = super(AbstractNormalityGofStatistic, AbstractNormalityGofStatistic).code()
-        return f"{short_code}_{base_code}"
+        return f"{short_code}_{AbstractNormalityGofStatistic.code()}"
 
     @override
     def execute_statistic(self, rvs):
@@ -554,7 +553,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        super().__init__()
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From bbe5630221b59ce3c2450034980eb2107b7e113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 14/39] fix: medcouple of the Brys-Hubert-Struyf statistic
 (endless loop, wrong candidates, debug output)

---
 .../statistics/goodness_of_fit/normal.py        | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index ad953ba..afdec96 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1996,11 +1996,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[(n // 2) + 1 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            # mc_c_d overwrites its last argument
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
@@ -2090,7 +2090,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # pointer -- corresponding to x2[i] = x[j]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
@@ -2131,7 +2131,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
@@ -2250,7 +2249,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2270,11 +2269,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 66c74d319475292ec4061795126065fd57d5ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 15/39] fix: statistics sorted the caller's sample in place

---
 .../statistics/goodness_of_fit/exponent.py        | 15 +++++++--------
 .../goodness_of_fit/graph_goodness_of_fit.py      |  6 +++---
 .../statistics/goodness_of_fit/normal.py          |  9 +++------
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..ac208a6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,8 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
-        rvs = np.array(rvs)
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -820,7 +819,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +870,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +921,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1065,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1284,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..9e1cde8 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         right_border = 0
         clique_number = 0
@@ -225,11 +225,11 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index afdec96..e6cf277 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -778,8 +778,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n].copy()
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             tmp1 = n * (n - 1)
             tmp2 = tmp1 * (n - 2)
             tmp3 = tmp2 * (n - 3)
@@ -838,8 +837,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l22 = 0.0
             l32 = 0.0
             l42 = 0.0
@@ -906,8 +904,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l23 = 0.0
             l33 = 0.0
             l43 = 0.0
-- 
2.43.0


From f05e27c2eef7f11e5ad791688cc30296143329c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 16/39] fix: clique number counted one vertex too many at the
 right end of the sample

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 9e1cde8..1bb7d5d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -196,7 +196,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
             if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
+                clique_number = max(clique_number, right_border - left_border)
                 break
             clique_number = max(clique_number, right_border - left_border)
         return clique_number
-- 
2.43.0


From 55add4e4aacc955883ebea53a671eaf137e308d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 17/39] fix: normal and exponential statistics of a simple null
 ignored its parameters

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index ac208a6..9c1957c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -719,7 +719,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         n = len(rvs)
         x = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum(np.abs(x - b))
+        hg = (n ** (-1)) * np.sum(np.abs(self.lam * x - b))
 
         return hg
 
@@ -1286,7 +1286,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         n = len(rvs)
         rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
+        hg = (n ** (-1)) * np.sum((self.lam * rvs - b) ** 2)
 
         return hg
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index e6cf277..315ef23 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -88,7 +88,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -219,7 +219,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From d82e3e18ab6f83a9c13394569e4b59dab5c00e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 18/39] fix: Weibull Anderson-Darling, Laplace-transform and
 Cabana-Quiroz statistics raised on valid samples

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..a8f4e08 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
@@ -1348,7 +1348,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1390,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
-- 
2.43.0


From 5f434ad3dd2086d7d8e89508adbf86872cb55bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 19/39] fix: Cabana-Quiroz statistic raised on lists

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index a8f4e08..55c4fe8 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1441,8 +1441,8 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
 
         n = len(rvs)
 
-        e1 = np.exp(-rvs * s1)
-        e2 = np.exp(-rvs * s2)
+        e1 = np.exp(-np.asarray(rvs) * s1)
+        e2 = np.exp(-np.asarray(rvs) * s2)
 
         mean_e1 = np.mean(e1)
         mean_e2 = np.mean(e2)
-- 
2.43.0


From d4e39299fbf676ec028f074892abae43571d6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 20/39] fix: Watson statistic of the uniform law is W^2 - n
 (mean(u) - 1/2)^2

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..67b8a0b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -350,9 +350,8 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         rvs_standardized = (rvs_sorted - self.a) / (self.b - self.a)
 
         i = np.arange(1, n + 1)
-        fn = i / n
-        mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        w2 = 1 / (12 * n) + np.sum((rvs_standardized - (2 * i - 1) / (2 * n)) ** 2)
+        u2 = w2 - n * (np.mean(rvs_standardized) - 0.5) ** 2
 
         return u2
 
-- 
2.43.0


From a88afa9b4fd670d2f2ee3fb603006f0f12346326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 21/39] fix: Zhang's Z_C and Z_K statistics of the uniform law

---
 .../statistics/goodness_of_fit/uniform.py             | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 67b8a0b..cff26a8 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -591,14 +591,13 @@ class ZhangTestsUniformGofStatistic(AbstractUniformGofStatistic):
             statistic = -term1 - term2
 
         elif self.test_type == "C":
-            term1 = np.sum((np.log(rvs_std) / (n - i + 0.5)) ** 2)
-            term2 = np.sum((np.log(1 - rvs_std) / (i - 0.5)) ** 2)
-            statistic = term1 + term2
+            ratio = (1 / rvs_std - 1) / ((n - 0.5) / (i - 0.75) - 1)
+            statistic = np.sum(np.log(ratio) ** 2)
 
         else:
-            term1 = np.sum(np.log(rvs_std / (1 - rvs_std)) / (n - i + 0.5))
-            term2 = np.sum(np.log((1 - rvs_std) / rvs_std) / (i - 0.5))
-            statistic = max(np.abs(term1), np.abs(term2))
+            term1 = (i - 0.5) * np.log((i - 0.5) / (n * rvs_std))
+            term2 = (n - i + 0.5) * np.log((n - i + 0.5) / (n * (1 - rvs_std)))
+            statistic = np.max(term1 + term2)
 
         return statistic
 
-- 
2.43.0


From 57137c6e4c8a736cd4b0c8d1cdb5159009078405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 22/39] fix: Zhang's Z_C statistic of the Student law

---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..4de5751 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,9 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
-        # Avoid division by zero and log of negative numbers
-        term2 = np.where(term2 <= 0, 1e-10, term2)
+        term2 = (n - 0.5) / (i - 0.75) - 1
         zc = np.sum(np.log(term1 / term2) ** 2)
 
         return zc
-- 
2.43.0


From cb4524fe4567a23d2b68e917371f93ef7a0bd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 23/39] fix: sign of the 1/t term in the Weibull likelihood
 equation

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 55c4fe8..437c9f0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -764,7 +764,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         def f1(toto, vect):
             if toto != 0:
                 f1 = np.sum(vect) / len(vect)
-                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) - 1 / toto
+                f1 -= np.sum(vect * np.exp(-vect * toto)) / np.sum(np.exp(-vect * toto)) + 1 / toto
             else:
                 f1 = 100
             return abs(f1)
-- 
2.43.0


From 794c03cc6c0176a2bfa65779c2d0e9651b7a1088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 24/39] fix: clique number of a sample of equal values is 1

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 1bb7d5d..0230542 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -191,7 +191,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         rvs = np.sort(rvs)
 
         right_border = 0
-        clique_number = 0
+        clique_number = 1 if len(rvs) > 0 else 0
         for left_border in range(len(rvs)):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
-- 
2.43.0


From 73d598336ca3b0477ed8a9c4fc56904aa57ad4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 25/39] fix: gamma Lilliefors and PPCC refuse constant samples
 whose mean rounds

The documented ValueError for degenerate data depended on the computed
variance of a constant sample being exactly zero.
---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 0e57a64..b0cb18a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -180,7 +180,7 @@ class LillieforsGammaGofStatistic(AbstractGammaGofStatistic, LillieforsTest):
 
         mean = np.mean(sample)
         var = np.var(sample, ddof=1)
-        if mean <= 0 or var <= 0:
+        if mean <= 0 or var <= 0 or np.ptp(sample) == 0:
             raise ValueError(
                 "Sample mean and variance must be positive for Gamma parameter estimation."
             )
@@ -787,7 +787,7 @@ class ProbabilityPlotCorrelationGammaGofStatistic(AbstractGammaGofStatistic):
         expected_centered = expected - np.mean(expected)
         numerator = np.sum(sample_centered * expected_centered)
         denominator = np.sqrt(np.sum(sample_centered**2) * np.sum(expected_centered**2))
-        if denominator == 0:
+        if denominator == 0 or np.ptp(sample) == 0:
             raise ValueError("Degenerate data encountered while computing PPCC statistic.")
 
         corr = numerator / denominator
-- 
2.43.0


From d1baf2a0635219b022c2f9f1fd243c8ae0713bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 26/39] fix: Weibull likelihood equation has no ln(mean x^k)
 term

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From 345255532d91c1c898b850d1c2b23a9609315285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 27/39] fix: Rayleigh likelihood of a sample containing 0 is 0

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..deb7431 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -321,9 +321,9 @@ def likelihood_function_rayleigh(dataArray):
 
     :param dataArray: array of observed data samples (must be non-negative).
 
-    :return: likelihood value (0 if any value is negative).
+    :return: likelihood value (0 if any value is negative or zero, where the density is 0).
     """
-    if np.any(dataArray < 0):
+    if np.any(dataArray <= 0):
         return 0
 
     params = rayleigh.fit(dataArray, floc=0)
-- 
2.43.0


From 5107b33529a973b10ba6ba83a269f6e1009b47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 28/39] fix: Poisson and geometric likelihoods of degenerate
 samples are 1

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index deb7431..12768c3 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -508,6 +508,9 @@ def likelihood_function_poisson(dataArray):
     sum_x = np.sum(dataArray)
     lam = sum_x / len(dataArray)
 
+    if lam == 0:
+        return 1
+
     log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
     likelihood = exp(log_likelihood)
 
@@ -530,6 +533,9 @@ def likelihood_function_geometric(dataArray):
     sum_x = np.sum(dataArray)
     p = n / sum_x
 
+    if p == 1:
+        return 1
+
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From d4a0def66c10ef6f5b5b70c960ce3efc1e5de75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 29/39] fix: Wigner likelihood searches radii proportional to
 the sample

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 12768c3..814b205 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -353,8 +353,12 @@ def likelihood_function_wigner(dataArray):
         n = len(dataArray)
         return -(n * log(2 / (pi * R**2)) + 0.5 * np.sum(np.log(R**2 - dataArray**2)))
 
+    # The likelihood is unimodal, and its maximum lies in (max_abs_x, sqrt(2) * max_abs_x]
     result = minimize_scalar(
-        neg_log_likelihood, bounds=(max_abs_x + 1e-6, max_abs_x + 10), method="bounded"
+        neg_log_likelihood,
+        bounds=(max_abs_x, 1.5 * max_abs_x),
+        method="bounded",
+        options={"xatol": 1e-9 * max_abs_x},
     )
 
     if not result.success:
-- 
2.43.0


From b6953f10a9d1ef3249783780270cc9d415cced88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 30/39] fix: Poisson and binomial likelihoods of whole numbers
 stored as floats

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 814b205..f2ef738 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -491,7 +491,7 @@ def likelihood_function_binomial(dataArray, n):
             return 0
 
     log_likelihood = np.sum(
-        [log(comb(n, x)) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
+        [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
     return exp(log_likelihood)
@@ -515,7 +515,7 @@ def likelihood_function_poisson(dataArray):
     if lam == 0:
         return 1
 
-    log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
+    log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
     likelihood = exp(log_likelihood)
 
     return likelihood
-- 
2.43.0


From 1e17db382766de201d9a51afaaf8943c92db8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 31/39] fix: the search for the most likely family can be
 imported and returns it

---
 .../maximum_likelihood/maximum_likelihood.py    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 3362194..a7de425 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -1,8 +1,9 @@
 import inspect
 
-import function_for_maximum_likelihood
 import numpy as np
 
+from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood
+
 
 def find_max_probability_function(data):
     """
@@ -12,8 +13,11 @@ def find_max_probability_function(data):
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
+    # the likelihoods that need the sample only (not the number of trials of a binomial)
     functions = [
-        f for _, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        f
+        for name, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        if name.startswith("likelihood_function_") and len(inspect.signature(f).parameters) == 1
     ]
 
     max_func = None
@@ -25,6 +29,9 @@ def find_max_probability_function(data):
             max_probability = result
             max_func = func
 
+    if max_func is None:
+        raise ValueError("No distribution has a positive likelihood.")
+
     return max_func
 
 
@@ -39,10 +46,12 @@ def find_result_of_likelihood_function(data):
     """
     data_array = np.array(data)
 
-    if not data_array:
+    if data_array.size == 0:
         raise ValueError("There are no data.")
 
     if not np.issubdtype(data_array.dtype, np.number):
         raise TypeError("Data should be numeric.")
 
-    find_max_probability_function(data)
+    max_func = find_max_probability_function(data_array)
+
+    return max_func, max_func(data_array)
-- 
2.43.0


From 608e34b56f1f03573c325e11e96b30fb40f638a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 32/39] fix: central moment of columns of a table of samples

---
 src/pysatl_criterion/core/distributions/sample.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/sample.py b/src/pysatl_criterion/core/distributions/sample.py
index bb5c087..3e2cd00 100644
--- a/src/pysatl_criterion/core/distributions/sample.py
+++ b/src/pysatl_criterion/core/distributions/sample.py
@@ -1,4 +1,3 @@
-import numpy as np
 from scipy.stats import moment as scipy_moment
 
 
@@ -44,5 +43,4 @@ def central_moment(a, mom=1):
 
     The central moment is computed relative to the sample mean:
     """
-    mu = np.mean(a, axis=0)
-    return scipy_moment(a=a, moment=mom, center=mu)
+    return scipy_moment(a=a, moment=mom, center=None)
-- 
2.43.0


From 4586a5924bfe48b969e41ae00e8e82c77b1c836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 33/39] fix: normal, log-normal and exponential likelihoods of
 samples in which one density underflows

---
 .../function_for_maximum_likelihood.py                | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index f2ef738..f6c69b3 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -75,8 +75,7 @@ def likelihood_function_normal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / sqrt(2 * pi * variance)) * exp(-((x - mean) ** 2) / (2 * variance))
-        log_likelihood += log(prob_density)
+        log_likelihood += -log(sqrt(2 * pi * variance)) - (x - mean) ** 2 / (2 * variance)
 
     likelihood = exp(log_likelihood)
 
@@ -104,10 +103,9 @@ def likelihood_function_lognormal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / (x * sqrt(2 * pi * variance_log))) * exp(
-            -((log(x) - mean_log) ** 2) / (2 * variance_log)
+        log_likelihood += -log(x * sqrt(2 * pi * variance_log)) - (log(x) - mean_log) ** 2 / (
+            2 * variance_log
         )
-        log_likelihood += log(prob_density)
 
     likelihood = exp(log_likelihood)
 
@@ -135,8 +133,7 @@ def likelihood_function_exponential(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = lam * exp(-lam * x)
-        log_likelihood += log(prob_density)
+        log_likelihood += log(lam) - lam * x
 
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 689ae4e91a2207443a3b8b77b6fffc0b05a8d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 34/39] fix: Weibull likelihood sums logarithms instead of
 multiplying densities

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index f6c69b3..3baf57e 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -166,11 +166,11 @@ def likelihood_function_weibull(dataArray):
     k = res.root
 
     lam = (np.mean(dataArray**k)) ** (1 / k)
-    likelihood = np.prod(
-        (k / lam) * (dataArray / lam) ** (k - 1) * np.exp(-((dataArray / lam) ** k))
+    log_likelihood = np.sum(
+        np.log(k / lam) + (k - 1) * np.log(dataArray / lam) - (dataArray / lam) ** k
     )
 
-    return likelihood
+    return np.exp(log_likelihood)
 
 
 # 6.Gamma distribution
-- 
2.43.0


From 265437e1942144234d7ac6857e527d4eb3be89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:53 +0000
Subject: [PATCH 35/39] fix: normality statistics of integer arrays computed in
 floating point

---
 .../statistics/goodness_of_fit/normal.py        | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 315ef23..654acbd 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -677,7 +677,7 @@ class EppsPulleyNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def execute_statistic(self, rvs, **kwargs):
         n = len(rvs)
-        x = np.sort(rvs)
+        x = np.sort(np.asarray(rvs, dtype=float))
         x_mean = np.mean(x)
         m2 = np.var(x, ddof=0)
 
@@ -771,7 +771,7 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat10(rvs)
+        return self.stat10(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat10(x):
@@ -1169,6 +1169,7 @@ class BontempsMeddahi1NormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
 
         if n > 3:
@@ -1300,7 +1301,7 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat32(rvs)
+        return self.stat32(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat32(x):
@@ -1600,7 +1601,7 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat30(rvs)
+        return self.stat30(np.asarray(rvs, dtype=float))
 
     def stat30(self, x):
         n = len(x)
@@ -1741,7 +1742,7 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
     def execute_statistic(self, rvs, **kwargs):
         n = len(rvs)
         if n > 3:
-            xs = np.sort(rvs)  # We sort the data
+            xs = np.sort(np.asarray(rvs, dtype=float))  # We sort the data
             mean_x = sum(xs) / n
             var_x = sum(x_i**2 for x_i in xs) / n - mean_x**2
             t = sum((i - 0.5 * (n + 1)) * xs[i - 1] for i in range(1, n + 1))
@@ -1906,7 +1907,7 @@ class GMGNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat33(rvs)
+        return self.stat33(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat33(x):
@@ -1977,7 +1978,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat16(rvs)
+        return self.stat16(np.asarray(rvs, dtype=float))
 
     def stat16(self, x):
         n = len(x)
@@ -2377,7 +2378,7 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @override
     def execute_statistic(self, rvs, **kwargs):
-        return self.stat35(rvs)
+        return self.stat35(np.asarray(rvs, dtype=float))
 
     @staticmethod
     def stat35(x):
-- 
2.43.0


From 7de65fadfb8b207cd069c8fc33d4074179af1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:01 +0000
Subject: [PATCH 36/39] fix: exponentiality statistics of integer arrays
 computed in floating point

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 9c1957c..0417d99 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -201,6 +201,7 @@ class AhsanullahExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         :return: Ahsanullah test statistic value.
         """
 
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         h = 0
         g = 0
@@ -509,7 +510,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -765,6 +766,7 @@ class HollanderProshanExponentialityGofStatistic(AbstractExponentialityGofStatis
         :return: Hollander-Proshan test statistic value.
         """
 
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         t = 0
         for i in range(n):
@@ -921,7 +923,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs = np.sort(rvs)
+        rvs = np.sort(np.asarray(rvs, dtype=float))
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
-- 
2.43.0


From 97cbb5e065398ac9e107edf54fd05c6cfbda44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 37/39] fix: log-normality statistics of integer arrays
 computed in floating point

---
 .../statistics/goodness_of_fit/log_normal.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index c82b1c9..fa9e4b5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -247,7 +247,7 @@ class KLSupremumLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Supremum test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -375,7 +375,7 @@ class KLIntegralLogNormalGoFStatistic(AbstractLogNormalGofStatistic):
         :param rvs: array of observed data samples.
         :return: KL Integral test statistic value (inf if data contains non-positive values).
         """
-        rvs = np.array(rvs)
+        rvs = np.array(rvs, dtype=float)
 
         if np.any(rvs <= 0):
             return float("inf")
@@ -493,7 +493,7 @@ def _create_lognormal_class(normal_cls):
             :param rvs: array of observed data samples.
             :return: test statistic value.
             """
-            rvs_arr = np.array(rvs)
+            rvs_arr = np.array(rvs, dtype=float)
 
             if np.any(rvs_arr <= 0):
                 return float("inf")
-- 
2.43.0


From e4319ca140ec611109e5ceae557d5392f5e90d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 38/39] fix: Weibull statistics of integer arrays computed in
 floating point

---
 .../statistics/goodness_of_fit/weibull.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 437c9f0..d0d9090 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -255,7 +255,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         :param rvs: array of observed data samples.
         :return: Anderson-Darling test statistic value.
         """
-        rvs = np.log(rvs)
+        rvs = np.log(np.asarray(rvs, dtype=float))
         y = np.sort(rvs)
         xbar, s = distributions.gumbel_l.fit(y)
         w = (y - xbar) / s
@@ -353,7 +353,7 @@ class SbWeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: WPP test statistic value.
         """
         n = len(rvs)
-        lv = np.log(rvs)
+        lv = np.log(np.asarray(rvs, dtype=float))
         y = np.sort(lv)
         interval = np.arange(1, n + 1)
 
@@ -410,7 +410,7 @@ class ST2WeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: chi-square-like statistic value based on kurtosis.
         """
         n = len(rvs)
-        lv = np.log(rvs)
+        lv = np.log(np.asarray(rvs, dtype=float))
         y = np.sort(lv)
         x = np.sort(-y)
 
@@ -463,7 +463,7 @@ class ST1WeibullGofStatistic(AbstractWeibullGofStatistic):
         :return: chi-square-like statistic value based on skewness.
         """
         n = len(rvs)
-        lv = np.log(rvs)
+        lv = np.log(np.asarray(rvs, dtype=float))
         y = np.sort(lv)
         x = np.sort(-y)
 
@@ -514,6 +514,7 @@ class RSBWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param rvs: array of observed data samples.
         :return: WPP test statistic value.
         """
+        rvs = np.asarray(rvs, dtype=float)
         n = len(rvs)
         interval = np.arange(1, n + 1)
 
@@ -581,7 +582,7 @@ class NormalizeSpaceWeibullGofStatistic(AbstractWeibullGofStatistic):
         s = 0  # can be defined
         r = 0  # can be defined
         n = m + s + r
-        A = np.sort(np.log(rvs))
+        A = np.sort(np.log(np.asarray(rvs, dtype=float)))
         d1 = A[1 : (m - 1)] - A[: (m - 2)]
         d2 = A[1:m] - A[: (m - 1)]
         X = TikuSinghWeibullGofStatistic.GoFNS(r + 1, n, m)
@@ -758,7 +759,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         if np.min(x) <= 0:
             raise ValueError("Data x is not a positive sample")
 
-        lv = -np.log(x)
+        lv = -np.log(np.asarray(x, dtype=float))
         y = np.sort(lv)
 
         def f1(toto, vect):
@@ -789,6 +790,7 @@ class WPPWeibullGofStatistic(AbstractWeibullGofStatistic):
         :param type_: code of the specific test to run (OK, SB, RSB, REJG, SPP, ST1, ST2).
         :return: corresponding WPP test statistic value.
         """
+        x = np.asarray(x, dtype=float)
         n = len(x)
         lv = np.log(x)
         y = np.sort(lv)
@@ -1245,7 +1247,7 @@ class KullbackLeiblerWeibullGofStatistic(AbstractWeibullGofStatistic):
         n = len(rvs)
         m = n // 2 if m is None else m
 
-        log_rvs = np.log(np.sort(rvs))
+        log_rvs = np.log(np.sort(np.asarray(rvs, dtype=float)))
 
         H_mn = np.mean(
             [
@@ -1441,8 +1443,8 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
 
         n = len(rvs)
 
-        e1 = np.exp(-np.asarray(rvs) * s1)
-        e2 = np.exp(-np.asarray(rvs) * s2)
+        e1 = np.exp(-np.asarray(rvs, dtype=float) * s1)
+        e2 = np.exp(-np.asarray(rvs, dtype=float) * s2)
 
         mean_e1 = np.mean(e1)
         mean_e2 = np.mean(e2)
-- 
2.43.0


From f6951031da3d325d33b7eb0b7c717a8ff4afdce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:19 +0000
Subject: [PATCH 39/39] fix: Quesenberry-Miller statistics of integer arrays
 computed in floating point

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index cff26a8..033f0ee 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -955,7 +955,7 @@ class QuesenberryMillerUniformGofStatistic(AbstractUniformGofStatistic):
         """
         rvs = self._validate_input(rvs)
 
-        x_sorted = np.sort(rvs)
+        x_sorted = np.sort(rvs.astype(float))
 
         x_with_boundaries = np.concatenate([[self.a], x_sorted, [self.b]])
 
-- 
2.43.0

