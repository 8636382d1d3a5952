From 1f7f583f531f51c1f7a84d5cb814da18e48716d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 01/31] fix: resolve the default log base when an estimator is
 built, not at import

Config.set('base', ...) and Config.set_logarithmic_unit(...) had no effect on
later calls because Config.get('base') was evaluated once, as a default
argument.
---
 infomeasure/estimators/base.py                | 21 ++++++++++---------
 infomeasure/estimators/entropy/ansb.py        |  3 +--
 infomeasure/estimators/entropy/bayes.py       |  3 +--
 infomeasure/estimators/entropy/kernel.py      |  3 +--
 .../estimators/entropy/kozachenko_leonenko.py |  3 +--
 infomeasure/estimators/entropy/nsb.py         |  3 +--
 infomeasure/estimators/entropy/ordinal.py     |  3 +--
 infomeasure/estimators/entropy/renyi.py       |  3 +--
 infomeasure/estimators/entropy/tsallis.py     |  3 +--
 .../estimators/mutual_information/ansb.py     |  3 +--
 .../estimators/mutual_information/bayes.py    |  3 +--
 .../mutual_information/bonachela.py           |  3 +--
 .../mutual_information/chao_shen.py           |  3 +--
 .../mutual_information/chao_wang_jost.py      |  3 +--
 .../estimators/mutual_information/discrete.py |  3 +--
 .../mutual_information/grassberger.py         |  3 +--
 .../estimators/mutual_information/kernel.py   |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../mutual_information/miller_madow.py        |  3 +--
 .../estimators/mutual_information/nsb.py      |  3 +--
 .../estimators/mutual_information/ordinal.py  |  3 +--
 .../estimators/mutual_information/renyi.py    |  3 +--
 .../estimators/mutual_information/shrink.py   |  3 +--
 .../estimators/mutual_information/tsallis.py  |  3 +--
 .../estimators/mutual_information/zhang.py    |  3 +--
 .../estimators/transfer_entropy/ansb.py       |  3 +--
 .../estimators/transfer_entropy/bayes.py      |  3 +--
 .../estimators/transfer_entropy/bonachela.py  |  3 +--
 .../estimators/transfer_entropy/chao_shen.py  |  3 +--
 .../transfer_entropy/chao_wang_jost.py        |  3 +--
 .../estimators/transfer_entropy/discrete.py   |  3 +--
 .../transfer_entropy/grassberger.py           |  3 +--
 .../estimators/transfer_entropy/kernel.py     |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../transfer_entropy/miller_madow.py          |  3 +--
 .../estimators/transfer_entropy/nsb.py        |  3 +--
 .../estimators/transfer_entropy/ordinal.py    |  3 +--
 .../estimators/transfer_entropy/renyi.py      |  3 +--
 .../estimators/transfer_entropy/shrink.py     |  3 +--
 .../estimators/transfer_entropy/tsallis.py    |  3 +--
 .../estimators/transfer_entropy/zhang.py      |  3 +--
 41 files changed, 51 insertions(+), 90 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..ed7a5dd 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,11 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +279,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +481,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +640,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +801,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +988,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,7 +1145,8 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
+            base = kwargs.get("base")
+            self.base = Config.get("base") if base is None else base
             self.res_global = None
             self.res_local = None
             return
@@ -1160,7 +1161,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
 
     @classmethod
     def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
+        cls, uniq, counts, base: LogBaseType = None, **kwargs
     ):
         """Construct a DiscreteHEstimator from the provided counts.
 
@@ -1176,7 +1177,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..d98aa0c 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -6,7 +6,6 @@ from scipy.special import digamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..fc9d3c0 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -3,7 +3,6 @@
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -68,7 +67,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..aa3d361 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -2,7 +2,6 @@
 
 from numpy import column_stack, sum as np_sum, isnan, nan
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import EntropyEstimator
 from ..mixins import WorkersMixin
@@ -129,7 +128,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..f29090b 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -9,7 +9,6 @@ from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
 from ..utils.array import assure_2d_data
 from ..utils.unit_ball_volume import unit_ball_volume
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -131,7 +130,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..daa8236 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -10,7 +10,6 @@ from scipy.special import loggamma, digamma, polygamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -80,7 +79,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..e8edff6 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -15,7 +15,6 @@ from numpy import (
 
 from ..base import EntropyEstimator
 from ..utils.ordinal import reduce_joint_space, symbolize_series
-from ... import Config
 from ...utils.config import logger
 from ...utils.data import DiscreteData
 from ...utils.types import LogBaseType
@@ -67,7 +66,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..3e6fbec 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -49,7 +48,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..c0a27fb 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -47,7 +46,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..5991b42 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -40,7 +39,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..b81c44f 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..ab57fb0 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..629b403 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..26a1030 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..fe405d8 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -16,7 +16,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import reduce_joint_space
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..865d333 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..4afa6c1 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -12,7 +12,6 @@ from ..base import (
 from ..mixins import WorkersMixin
 from ..utils.array import assure_2d_data
 from ..utils.kde import kde_probability_density_function
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -53,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..5963ed8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalMutualInformationEstimator,
 )
 from ..utils.array import assure_2d_data
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -57,7 +56,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..c34df35 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -41,7 +40,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..cf22e7b 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -39,7 +38,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..426ee8b 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import symbolize_series, reduce_joint_space
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -69,7 +68,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..0d07617 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..8226eea 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..380d86a 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..78d123b 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..e086624 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -55,7 +54,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..1ef7285 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -63,7 +62,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..7df0ec1 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..7313f36 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..d5918b3 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..05e7b16 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -12,7 +12,6 @@ from ..mixins import DiscreteTEMixin
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import reduce_joint_space
 from ..utils.te_slicing import cte_observations, te_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..450ada6 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..190bea7 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import isinf, isnan
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -65,7 +64,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..da9a9f2 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalTransferEntropyEstimator,
 )
 from ..utils.te_slicing import te_observations, cte_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..099433e 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import ndarray
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -52,7 +51,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..0d7f563 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..e6f1a83 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import integer, issubdtype, ndarray
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -76,7 +75,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..65413c9 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -71,7 +70,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..5637bd5 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..1c5c1eb 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -72,7 +71,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..1549e30 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From e0d670e5adcd1a7e4c797981465de17de2570b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 02/31] fix: keep the dependence of the other variables when
 one of three or more is constant

Mutual information and conditional mutual information of three or more
variables returned 0 (globally and locally) as soon as one variable was constant.
---
 .../utils/discrete_interaction_information.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..c667ed6 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if fewer than two marginal entropies can be non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -306,8 +306,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if fewer than two marginal entropies can be non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -430,8 +430,8 @@ def _conditional_mutual_information_global_nd_int(
     )
     # all axes, except cond
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if fewer than two marginal entropies can be non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -541,8 +541,8 @@ def conditional_mutual_information_local(
         contingency_coo.sum(axis=tuple(range(contingency_coo.ndim - 1)))
     )
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if fewer than two marginal entropies can be non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 1a8f222575b54194a140c0ee75ddd20108b81c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 03/31] fix: sum logarithms of marginal counts instead of
 taking the log of their product

The uint64 product of the marginal counts overflowed for many variables or
long series (e.g. five variables with 10000 observations), giving wrong values.
---
 .../utils/discrete_interaction_information.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index c667ed6..9308f45 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -114,11 +114,9 @@ def _mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count.take(idx).astype(uint64, copy=False)
-            for count, idx in zip(count_marginals, idxs)
-        ],
+    # The logarithms are summed, as the product of the counts may exceed uint64.
+    log_marginals = np_sum(
+        [log_func(count.take(idx)) for count, idx in zip(count_marginals, idxs)],
         axis=0,
     )
 
@@ -129,7 +127,7 @@ def _mutual_information_global_nd_int(
     # Logarithm of the non-zero elements
     log_p_joint = log_func(vals)
 
-    log_outer = -log_func(outer) + len(count_marginals) * log_func(contingency_sum)
+    log_outer = -log_marginals + len(count_marginals) * log_func(contingency_sum)
     # Combine the terms to calculate the mutual information
     mi = p_joint * (log_p_joint - log_func(contingency_sum)) + p_joint * log_outer
 
@@ -436,9 +434,10 @@ def _conditional_mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
+    # The logarithms are summed, as the product of the counts may exceed uint64.
+    log_marginals = np_sum(
         [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
+            log_func(count[idx, idxs[-1]])
             for count, idx in zip(count_marginals_cond, idxs[:-1])
         ],
         axis=0,
@@ -452,7 +451,7 @@ def _conditional_mutual_information_global_nd_int(
     p_cond = count_cond.take(idxs[-1]).astype(uint64, copy=False)
     log_p_joint = log_func(vals * p_cond) - log_func(contingency_sum)
 
-    log_outer = -log_func(outer) + sum(
+    log_outer = -log_marginals + sum(
         log_func(count_m.sum()) for count_m in count_marginals_cond[:-1]
     )
     # Combine the terms to calculate the mutual information
-- 
2.43.0


From 2427d999827eb2091333fb9434654a8870d7e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 04/31] fix: add the noise of the KSG conditional mutual
 information once per condition row

The whole condition received fresh noise in every iteration over the
observations, so its noise level grew with the square root of their number.
---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5963ed8..5d873f9 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -282,7 +282,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+                cond[j] += self.rng.normal(0, self.noise_level, cond[j].shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From b1bd725ea3cc03e458ab352b68777508388f9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/31] fix: use all columns of every variable in kernel
 conditional mutual information

The marginal densities took single columns of the joint array by position, so
multi-dimensional variables or conditions were mixed up.
---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index 4afa6c1..a9fc015 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -230,15 +229,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack((var, self.cond)),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From a7faf15f4f0d6649ccdeb2bb46b9e7c48aa2df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/31] fix: average the nearest-neighbour cross-entropy over
 the points of P, allow k=1

The sum over the points of P was divided by the number of points of Q, which is
wrong for samples of different sizes, and k=1 raised an IndexError (also for
the Renyi and Tsallis cross-entropies).
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 4 ++--
 infomeasure/estimators/utils/exponential_family.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index f29090b..63bc917 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -242,7 +242,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy_q)
 
         # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
@@ -261,7 +261,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / len(distances)
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..402db15 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,7 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    rho_k = tree.query(at, k=[k])[0][:, -1]  # k+1 because the point itself is included
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From 7cf2e2dd063b2584a672554dfe31c28264fd2089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 07/31] fix: shuffle the source patterns in ordinal mutual
 information tests

The null values of ordinal (conditional) mutual information were computed from
the unshuffled patterns, so they all equalled the observed value.
---
 infomeasure/estimators/mutual_information/ordinal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 426ee8b..01ccb85 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -128,6 +128,8 @@ class BaseOrdinalMIEstimator(ABC):
             for var in self.data
         ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
         # so mutual_information_global can use crosstab method internally
+        # Statistical tests shuffle the patterns (embedded windows), not the raw series
+        self.data = tuple(self.symbols)
 
         if cond is not None:
             self.symbols_cond = reduce_joint_space(
@@ -179,7 +181,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         if self.embedding_dim == 1:
             return 0.0
 
-        return mutual_information_global(*self.symbols, log_func=self._log_base)
+        return mutual_information_global(*self.data, log_func=self._log_base)
 
     def _extract_local_values(self) -> ndarray[float]:
         """Separately calculate the local values.
@@ -189,7 +191,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         ndarray[float]
             The calculated local values of mi.
         """
-        return mutual_information_local(*self.symbols, log_func=self._log_base)
+        return mutual_information_local(*self.data, log_func=self._log_base)
 
 
 class OrdinalCMIEstimator(
@@ -233,7 +235,7 @@ class OrdinalCMIEstimator(
             return 0.0
 
         return conditional_mutual_information_global(
-            *self.symbols,
+            *self.data,
             cond=self.symbols_cond,
             log_func=self._log_base,
         )
@@ -247,5 +249,5 @@ class OrdinalCMIEstimator(
             The calculated local values of cmi.
         """
         return conditional_mutual_information_local(
-            *self.symbols, cond=self.symbols_cond, log_func=self._log_base
+            *self.data, cond=self.symbols_cond, log_func=self._log_base
         )
-- 
2.43.0


From c75432740ac1d5e7f9d0583dad27b779b43c1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/31] fix: accept approach names in any case for one-variable
 mutual information

estimator(x, measure='mi', approach='Discrete') raised a KeyError, as did an
unknown approach, instead of the ValueError of all other requests.
---
 infomeasure/estimators/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..8c04b38 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -736,9 +736,9 @@ def estimator(
                 "Only one data array provided for mutual information estimation. "
                 "Using normal entropy estimator."
             )
-            EstimatorClass = _get_estimator(
-                entropy_estimators, mi_entropy_map[approach]
-            )
+            if isinstance(approach, str):
+                approach = mi_entropy_map.get(approach.lower(), approach)
+            EstimatorClass = _get_estimator(entropy_estimators, approach)
             return EstimatorClass(data[0], **kwargs)
         if cond is not None:
             EstimatorClass = _get_estimator(cmi_estimators, approach)
-- 
2.43.0


From bdb55e20ea68ecd725ac4ae0b5cd92110eb2d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 09/31] fix: pass step_size on to entropy and mutual
 information estimators

estimator(..., measure='entropy' or 'mi', approach='ordinal', step_size=s)
silently used a step size of 1, unlike the functional shortcuts.
---
 infomeasure/estimators/functional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index 8c04b38..1ae1099 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -717,6 +717,8 @@ def estimator(
                 "For cross-entropy, pass two separate RVs, e.g., estimator(p, q)."
             )
         EstimatorClass = _get_estimator(entropy_estimators, approach)
+        if step_size != 1:
+            kwargs["step_size"] = step_size
         return EstimatorClass(*data, **kwargs)
     elif measure_comp in [
         "mutual_information",
@@ -731,6 +733,8 @@ def estimator(
             )
         if len(data) == 0:
             raise ValueError("No data was provided for mutual information estimation.")
+        if step_size != 1:
+            kwargs["step_size"] = step_size
         if len(data) == 1:
             logger.warning(
                 "Only one data array provided for mutual information estimation. "
-- 
2.43.0


From 2ddef1800ab8aae7bd1f304345b332dbfa54e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 10/31] fix: local ordinal entropy of joint variables and of
 embedding dimension one

Both raised a TypeError because their patterns are integers, not sequences.
---
 infomeasure/estimators/entropy/ordinal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index e8edff6..56c57e2 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -10,6 +10,7 @@ from numpy import (
     integer,
     issubdtype,
     ndarray,
+    ndim,
     asarray,
 )
 
@@ -248,7 +249,11 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        # joint patterns (and the trivial pattern) are integers, others are sequences
+        p_local = [
+            self.dist_dict[tuple(pattern) if ndim(pattern) else pattern]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From 9062ee93b2ad72f07560401d410b7bafbdb8cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 11/31] fix: respect stable=True for all ordinal entropies

The option was ignored for embedding dimensions 2 and 3, joint and cross-entropy.
---
 infomeasure/estimators/entropy/ordinal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 56c57e2..5bee737 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -185,9 +185,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         return subarray_patterns[: len(a) - n + 1]
 
     def _estimate_probabilities(self, time_series, embedding_dim):
-        if embedding_dim == 2 and self.step_size == 1:
+        # the fast paths do not preserve the order of equal elements
+        if embedding_dim == 2 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_2(time_series)
-        if embedding_dim == 3 and self.step_size == 1:
+        if embedding_dim == 3 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_3(time_series)
 
         # Get the length of the time series
@@ -226,7 +227,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         """Calculate the joint entropy of the data."""
         # Symbolize separately (permutation patterns -> Lehmer codes)
         symbols = (
-            symbolize_series(marginal, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                marginal,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for marginal in self.data[0]  # data is tuple of time series
         )  # shape (n - (embedding_dim - 1) * step_size, num_joints)
         # Reduce the joint space
@@ -270,7 +277,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
                 "This is to have a clear definition for the support set."
             )
         symbols = tuple(
-            symbolize_series(var, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                var,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for var in self.data
         )
         data_p = DiscreteData.from_data(symbols[0])
-- 
2.43.0


From a6f98a4355ea4c97826818fef232f138df2cebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/31] fix: use the regular pattern of a series with a single
 ordinal window

The shortcut ranked the whole series instead of every step_size-th value (and
ignored the tie rule), so Jensen-Shannon divergences with such a series were wrong.
---
 infomeasure/estimators/entropy/ordinal.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 5bee737..dcd6958 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -210,10 +210,6 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             self.dist_dict = {0: 1.0}
             self.patterns = [0] * len(self.data[0])
             return 0.0
-        elif (self.embedding_dim - 1) * self.step_size + 1 == self.data[0].shape[0]:
-            self.dist_dict = {tuple(self.data[0].argsort()): 1.0}
-            self.patterns = [list(self.dist_dict.keys())[0]]
-            return 0.0
         probabilities, self.dist_dict, self.patterns = self._estimate_probabilities(
             self.data[0], self.embedding_dim
         )
-- 
2.43.0


From f8fc00709d52c8332e520d473ead3a521434db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 13/31] fix: label outcomes consistently in discrete
 cross-entropy of 2-D data

The joint outcomes of P and Q were enumerated separately, so unequal outcomes
were compared with each other.
---
 infomeasure/estimators/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index ed7a5dd..68e91c2 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -7,6 +7,7 @@ from typing import Generic, final, Sequence
 
 from numpy import (
     asarray,
+    concatenate,
     integer,
     issubdtype,
     log,
@@ -1273,7 +1274,11 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
             (isinstance(var, ndarray) and var.ndim > 1) or isinstance(var, tuple)
             for var in self.data
         )
-        if any(reduce):
+        if any(reduce) and len(self.data) == 2:
+            # For cross-entropy, equal outcomes need equal labels in both variables.
+            joint = reduce_joint_space(concatenate(self.data, axis=0))
+            self.data = (joint[: len(self.data[0])], joint[len(self.data[0]) :])
+        elif any(reduce):
             # As the discrete shannon entropy disregards the order of the data,
             # we can reduce the values to unique integers.
             # In case of having multiple random variables (tuple or list),
-- 
2.43.0


From 53bfd1202854e5b3147671a349b5dab6ffe850c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 14/31] fix: label outcomes consistently in the Jensen-Shannon
 divergence of 2-D data

The joint outcomes of each sample were enumerated separately, so the mixture
added up probabilities of unequal outcomes.
---
 infomeasure/composite_measures/jsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/infomeasure/composite_measures/jsd.py b/infomeasure/composite_measures/jsd.py
index 1dc1475..1f54737 100644
--- a/infomeasure/composite_measures/jsd.py
+++ b/infomeasure/composite_measures/jsd.py
@@ -1,6 +1,6 @@
 """Jensen-Shannon Divergence (JSD)."""
 
-from numpy import sum as np_sum, concatenate, ndarray
+from numpy import sum as np_sum, asarray, concatenate, cumsum, ndarray, split
 
 from ..estimators.entropy import (
     RenyiEntropyEstimator,
@@ -13,6 +13,7 @@ from ..estimators.entropy import (
     ShrinkEntropyEstimator,
 )
 from ..estimators.functional import get_estimator_class
+from ..estimators.utils.ordinal import reduce_joint_space
 
 
 def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
@@ -81,6 +82,12 @@ def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
             ShrinkEntropyEstimator,
         ),
     ):
+        if any(asarray(var).ndim > 1 for var in data) and not issubclass(
+            estimator_class, OrdinalEntropyEstimator
+        ):
+            # joint outcomes need the same label in all distributions
+            joint = reduce_joint_space(concatenate(data, axis=0))
+            data = split(joint, cumsum([len(var) for var in data])[:-1])
         estimators = tuple(estimator_class(var, **kwargs) for var in data)
         marginal = sum(estimator.global_val() for estimator in estimators) / len(data)
         # the distributions have some matching and some unique keys, create a new dict
-- 
2.43.0


From d2300d6d5a8b217b7845c85839dfa82283fda637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 15/31] fix: mutual information between one- and
 multi-dimensional discrete variables

Mixing them raised a TypeError, as scalars were turned into tuples.
---
 .../estimators/utils/discrete_interaction_information.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index 9308f45..6e925d3 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -204,12 +204,12 @@ def _mutual_information_global_nd_other(
     """
     # data is a tuple of ndarrays, for joint data, concatenate these rows
     # joint_data = [tuple(row) for row in column_stack(data)]
-    joint_data = [tuple(tuple(val) for val in row) for row in zip(*data)]
+    joint_data = [tuple(tuple(ravel(val)) for val in row) for row in zip(*data)]
 
     # Count joint and marginal occurrences
     joint_counts = Counter(joint_data)
     joint_total = sum(joint_counts.values())
-    marginal_counts = [Counter([tuple(val) for val in var]) for var in data]
+    marginal_counts = [Counter([tuple(ravel(val)) for val in var]) for var in data]
     marginal_totals = [sum(counts.values()) for counts in marginal_counts]
 
     # Estimate probabilities
-- 
2.43.0


From 96003aaf78b5f15295637b4fcd8fe2b4835d371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 16/31] fix: restore the estimator when a statistical test
 fails part-way

An exception while evaluating a null sample left the shuffled data or the
resampling request in place, so later results were those of a null sample.
---
 infomeasure/estimators/mixins.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..b1b520f 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -293,14 +293,15 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
         else:
             raise ValueError(f"Invalid statistical test method: {method}.")
 
-        # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            # Generate test values
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -334,13 +335,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
         else:
             raise ValueError(f"Invalid statistical test method: {method}.")
 
-        # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            # Generate test values
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From a70081f415699d1b0b0e77a1902d5cc0e2782263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 17/31] fix: store the effective value, as documented

effective_val() drew a new null sample on every call instead of returning the
stored value; res_effective stayed None.
---
 infomeasure/estimators/mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index b1b520f..e7ae34b 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -515,8 +515,10 @@ class EffectiveValueMixin(StatisticalTestingMixin):
         effective : float
             The effective value.
         """
-        _, _, test_values = self._statistical_test(n_tests=1, method=method)
-        return self.global_val() - test_values[0]
+        if self.res_effective is None:
+            _, _, test_values = self._statistical_test(n_tests=1, method=method)
+            self.res_effective = self.global_val() - test_values[0]
+        return self.res_effective
 
 
 class WorkersMixin:
-- 
2.43.0


From 21dbeca76d5e239f591fb1c54dbbbdf3f2a6c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 18/31] fix: accept joint conditions given as tuple or list in
 every (C)MI and CTE approach

---
 infomeasure/estimators/base.py                    | 15 +++++++++++++--
 .../estimators/mutual_information/discrete.py     |  7 ++++---
 .../estimators/mutual_information/miller_madow.py |  2 ++
 .../estimators/transfer_entropy/discrete.py       |  7 ++++---
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 68e91c2..04787d3 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -7,6 +7,7 @@ from typing import Generic, final, Sequence
 
 from numpy import (
     asarray,
+    column_stack,
     concatenate,
     integer,
     issubdtype,
@@ -14,6 +15,7 @@ from numpy import (
     log2,
     log10,
     ndarray,
+    ndim,
 )
 from numpy import mean as np_mean
 from numpy import sum as np_sum
@@ -436,6 +438,13 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
         )
 
 
+def _join_condition(cond) -> ndarray:
+    """Return the condition as array, a tuple of random variables is joined."""
+    if isinstance(cond, tuple) and all(ndim(var) > 0 for var in cond):
+        return column_stack(cond)
+    return asarray(cond)
+
+
 class MutualInformationEstimator(
     StatisticalTestingMixin, Estimator["MutualInformationEstimator"], ABC
 ):
@@ -647,6 +656,7 @@ class ConditionalMutualInformationEstimator(
         """Initialize the estimator with the data."""
         if cond is None:
             raise ValueError("Conditional data must be provided for CMI estimation.")
+        cond = _join_condition(cond)
         if offset not in (None, 0):
             raise ValueError("Offset is not supported for CMI estimation.")
         if len(data[0]) != len(data[1]) or len(data[0]) != len(cond):
@@ -655,7 +665,7 @@ class ConditionalMutualInformationEstimator(
                 f"not {len(data[0])}, {len(data[1])}, and {len(cond)}."
             )
         self.data = tuple(asarray(d) for d in data)
-        self.cond = asarray(cond)
+        self.cond = cond
         # Normalize the data
         self.normalize = normalize
         if self.normalize and (
@@ -995,6 +1005,7 @@ class ConditionalTransferEntropyEstimator(
         """Initialize the estimator with the data."""
         if cond is None:
             raise ValueError("Conditional data must be provided for CTE estimation.")
+        cond = _join_condition(cond)
         if len(source) != len(dest) or len(source) != len(cond):
             raise ValueError(
                 "Data arrays must be of the same length, "
@@ -1009,7 +1020,7 @@ class ConditionalTransferEntropyEstimator(
             )
         self.source = asarray(source)
         self.dest = asarray(dest)
-        self.cond = asarray(cond)
+        self.cond = cond
         # Slicing parameters
         self.src_hist_len = src_hist_len
         self.dest_hist_len = dest_hist_len
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index fe405d8..845cf46 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import ndarray
+from numpy import asarray, ndarray
 
 from ..base import (
     MutualInformationEstimator,
@@ -67,8 +67,9 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         if cond is None:
             super().__init__(*data, offset=offset, normalize=False, base=base, **kwargs)
         else:
-            if isinstance(cond, (tuple, ndarray)):
-                cond = reduce_joint_space(cond)
+            cond = reduce_joint_space(
+                cond if isinstance(cond, tuple) else asarray(cond)
+            )
             super().__init__(
                 *data, cond=cond, offset=offset, normalize=False, base=base, **kwargs
             )
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index c34df35..193c32d 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,6 +15,7 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
+from ..utils.ordinal import reduce_joint_space
 from ...utils.types import LogBaseType
 
 
@@ -65,6 +66,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
             super().__init__(
                 *data, cond=cond, offset=offset, normalize=False, base=base, **kwargs
             )
+            self.cond = reduce_joint_space(self.cond)
         self._check_data_mi()
 
 
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index 05e7b16..4c88f5d 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import ndarray
+from numpy import asarray, ndarray
 
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -95,8 +95,9 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
                 **kwargs,
             )
         else:
-            if isinstance(cond, (tuple, ndarray)):
-                cond = reduce_joint_space(cond)
+            cond = reduce_joint_space(
+                cond if isinstance(cond, tuple) else asarray(cond)
+            )
             super().__init__(
                 source,
                 dest,
-- 
2.43.0


From 592536cc5c92fe10f61391d73f5092d7b83ee78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 19/31] fix: refuse an offset that leaves no observations,
 treat offset=None as none

---
 infomeasure/estimators/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 04787d3..b6b9eb3 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -506,7 +506,12 @@ class MutualInformationEstimator(
                 f"not {[var.shape[0] for var in self.data]}."
             )
         # Apply the offset
-        self.offset = offset
+        self.offset = 0 if offset is None else offset
+        if abs(self.offset) >= len(self.data[0]) > 0:
+            raise ValueError(
+                f"The offset {offset} leaves no observations of the data with "
+                f"length {len(self.data[0])}."
+            )
         if self.offset > 0:
             self.data = (
                 self.data[0][: -self.offset or None],
-- 
2.43.0


From ffa7101723313142dfd7c73e6c0af5852592a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 20/31] fix: check the lengths of all variables of conditional
 mutual information

---
 infomeasure/estimators/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index b6b9eb3..9599db3 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -664,10 +664,12 @@ class ConditionalMutualInformationEstimator(
         cond = _join_condition(cond)
         if offset not in (None, 0):
             raise ValueError("Offset is not supported for CMI estimation.")
-        if len(data[0]) != len(data[1]) or len(data[0]) != len(cond):
+        if len(data) < 2:
+            raise ValueError("At least two data arrays are required for CMI estimation.")
+        if any(len(var) != len(cond) for var in data):
             raise ValueError(
                 "Data arrays must be of the same length, "
-                f"not {len(data[0])}, {len(data[1])}, and {len(cond)}."
+                f"not {[len(var) for var in data]} and {len(cond)}."
             )
         self.data = tuple(asarray(d) for d in data)
         self.cond = cond
-- 
2.43.0


From 08362bd6e79972444aa65ae33db39451f340f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 21/31] fix: count no KSG neighbours strictly inside a zero
 radius for any norm

A negative subnormal radius is squared to zero for the Euclidean norm, so
coinciding points were counted as strictly inside.
---
 .../kraskov_stoegbauer_grassberger.py         | 39 +++++----
 .../kraskov_stoegbauer_grassberger.py         | 79 +++++++++++--------
 2 files changed, 71 insertions(+), 47 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5d873f9..1ace566 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -191,13 +191,16 @@ class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
             # Type I uses strict inequality: dist < d
             # nextafter(d, -inf) gives the largest float strictly less than d
             counts_marginal = [
-                tree.query_ball_point(
-                    var,
-                    r=nextafter(kth_distances, -inf),
-                    p=self.minkowski_p,
-                    return_length=True,
+                (
+                    tree.query_ball_point(
+                        var,
+                        r=nextafter(kth_distances, -inf),
+                        p=self.minkowski_p,
+                        return_length=True,
+                    )
+                    - 1
                 )
-                - (kth_distances > 0).astype(int)
+                * (kth_distances > 0)
                 for tree, var in zip(trees_marginal, data)
             ]
         else:
@@ -301,18 +304,24 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
         if self.ksg_id == 1:
             r_strict = nextafter(kth_distances, -inf)
             counts_marginal_cond = [
-                tree.query_ball_point(
-                    column_stack((var, cond)),
-                    r=r_strict,
-                    p=self.minkowski_p,
-                    return_length=True,
+                (
+                    tree.query_ball_point(
+                        column_stack((var, cond)),
+                        r=r_strict,
+                        p=self.minkowski_p,
+                        return_length=True,
+                    )
+                    - 1
                 )
-                - (kth_distances > 0).astype(int)
+                * (kth_distances > 0)
                 for tree, var in zip(trees_marginal_cond, data)
             ]
-            count_cond = tree_cond.query_ball_point(
-                cond, r=r_strict, p=self.minkowski_p, return_length=True
-            ) - (kth_distances > 0).astype(int)
+            count_cond = (
+                tree_cond.query_ball_point(
+                    cond, r=r_strict, p=self.minkowski_p, return_length=True
+                )
+                - 1
+            ) * (kth_distances > 0)
 
             # Compute local CMI for each data point
             local_cmi = digamma(self.k) + array(
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index da9a9f2..21e3646 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -220,24 +220,33 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
 
         if self.ksg_id == 1:
             r_strict = nextafter(kth_distances, -inf)
-            count_dest_past_present = tree_dest_past_present.query_ball_point(
-                marginal_2_space_data,
-                r=r_strict,
-                p=self.minkowski_p,
-                return_length=True,
-            ) - (kth_distances > 0).astype(int)
-            count_source_past_dest_past = tree_source_past_dest_past.query_ball_point(
-                marginal_1_space_data,
-                r=r_strict,
-                p=self.minkowski_p,
-                return_length=True,
-            ) - (kth_distances > 0).astype(int)
-            count_dest_past = tree_dest_past.query_ball_point(
-                data_dest_past_embedded,
-                r=r_strict,
-                p=self.minkowski_p,
-                return_length=True,
-            ) - (kth_distances > 0).astype(int)
+            count_dest_past_present = (
+                tree_dest_past_present.query_ball_point(
+                    marginal_2_space_data,
+                    r=r_strict,
+                    p=self.minkowski_p,
+                    return_length=True,
+                )
+                - 1
+            ) * (kth_distances > 0)
+            count_source_past_dest_past = (
+                tree_source_past_dest_past.query_ball_point(
+                    marginal_1_space_data,
+                    r=r_strict,
+                    p=self.minkowski_p,
+                    return_length=True,
+                )
+                - 1
+            ) * (kth_distances > 0)
+            count_dest_past = (
+                tree_dest_past.query_ball_point(
+                    data_dest_past_embedded,
+                    r=r_strict,
+                    p=self.minkowski_p,
+                    return_length=True,
+                )
+                - 1
+            ) * (kth_distances > 0)
 
             # Compute local transfer entropy
             local_te = (
@@ -367,12 +376,15 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
 
         if self.ksg_id == 1:
             r_strict = nextafter(kth_distances, -inf)
-            count_cond_dest_past_present = tree_cond_dest_past_present.query_ball_point(
-                marginal_2_space_data,
-                r=r_strict,
-                p=self.minkowski_p,
-                return_length=True,
-            ) - (kth_distances > 0).astype(int)
+            count_cond_dest_past_present = (
+                tree_cond_dest_past_present.query_ball_point(
+                    marginal_2_space_data,
+                    r=r_strict,
+                    p=self.minkowski_p,
+                    return_length=True,
+                )
+                - 1
+            ) * (kth_distances > 0)
             count_source_past_cond_dest_past = (
                 tree_source_past_cond_dest_past.query_ball_point(
                     marginal_1_space_data,
@@ -380,14 +392,17 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
                     p=self.minkowski_p,
                     return_length=True,
                 )
-                - (kth_distances > 0).astype(int)
-            )
-            count_dest_past_cond = tree_dest_past_cond.query_ball_point(
-                data_dest_past_embedded,
-                r=r_strict,
-                p=self.minkowski_p,
-                return_length=True,
-            ) - (kth_distances > 0).astype(int)
+                - 1
+            ) * (kth_distances > 0)
+            count_dest_past_cond = (
+                tree_dest_past_cond.query_ball_point(
+                    data_dest_past_embedded,
+                    r=r_strict,
+                    p=self.minkowski_p,
+                    return_length=True,
+                )
+                - 1
+            ) * (kth_distances > 0)
 
             # Compute local conditional transfer entropy
             local_cte = (
-- 
2.43.0


From 73778c025d813aa3c3c083ef40c974256237b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 22/31] fix: refuse negative logarithm bases in every estimator

Only estimators that use _log_base refused them; the others returned nan.
---
 infomeasure/estimators/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 9599db3..5287040 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -71,7 +71,15 @@ class Estimator(Generic[EstimatorType], ABC):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = Config.get("base") if base is None else base
+        self.base = self._resolve_base(base)
+
+    @staticmethod
+    def _resolve_base(base: LogBaseType | None) -> LogBaseType:
+        """Return the passed or else the configured base, negative ones are refused."""
+        base = Config.get("base") if base is None else base
+        if base != "e" and base < 0:
+            raise ValueError(f"Logarithm base must be positive, not {base}.")
+        return base
 
     @final
     def calculate(self) -> None:
@@ -1164,8 +1172,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            base = kwargs.get("base")
-            self.base = Config.get("base") if base is None else base
+            self.base = self._resolve_base(kwargs.get("base"))
             self.res_global = None
             self.res_local = None
             return
-- 
2.43.0


From e536c49b2d4bf379a0539bb0808c78c10f1f0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 23/31] fix: keep outcomes of differently typed discrete
 variables apart when joining them

---
 infomeasure/estimators/base.py          |  6 +++++-
 infomeasure/estimators/utils/ordinal.py | 27 ++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 5287040..8e52b10 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -28,7 +28,7 @@ from ..utils.exceptions import TheoreticalInconsistencyError
 from ..utils.types import EstimatorType, LogBaseType
 from .utils.normalize import normalize_data_0_1
 from .utils.te_slicing import cte_observations, te_observations
-from .utils.ordinal import reduce_joint_space
+from .utils.ordinal import label_mixed_types, reduce_joint_space
 
 
 class Estimator(Generic[EstimatorType], ABC):
@@ -918,6 +918,8 @@ class TransferEntropyEstimator(
         # Ensure source and dest are numpy arrays
         source = self.source.copy()
         dest = self.dest.copy()
+        if issubclass(estimator, DiscreteHEstimator):
+            source, dest = label_mixed_types(source, dest)
 
         # If Discrete Estimator and noise_level is set, raise an error
         if estimator.__name__ == "DiscreteEntropyEstimator" and noise_level:
@@ -1078,6 +1080,8 @@ class ConditionalTransferEntropyEstimator(
         source = self.source.copy()
         dest = self.dest.copy()
         cond = self.cond.copy()
+        if issubclass(estimator, DiscreteHEstimator):
+            source, dest, cond = label_mixed_types(source, dest, cond)
 
         # Add Gaussian noise to the data if the flag is set
         if isinstance(noise_level, (int, float)) and noise_level != 0:
diff --git a/infomeasure/estimators/utils/ordinal.py b/infomeasure/estimators/utils/ordinal.py
index 54661bf..75183e1 100644
--- a/infomeasure/estimators/utils/ordinal.py
+++ b/infomeasure/estimators/utils/ordinal.py
@@ -5,6 +5,7 @@ from typing import Generator
 
 from numpy import (
     ndarray,
+    asarray,
     argsort,
     apply_along_axis,
     zeros,
@@ -149,6 +150,30 @@ def symbolize_series(
     return patterns
 
 
+def label_mixed_types(*data: ndarray) -> tuple[ndarray, ...]:
+    """Replace the outcomes of differently typed discrete variables by their ranks.
+
+    Joining arrays of different types converts them to a common type,
+    in which different outcomes can become equal, e.g. large int64 and uint64
+    numbers as floats. Arrays of one common type are returned as they are.
+
+    Parameters
+    ----------
+    *data : ndarray
+        The discrete variables that are about to be joined.
+
+    Returns
+    -------
+    tuple of ndarray
+        The variables, or integer labels of their outcomes in sorted order.
+    """
+    if all(var.dtype == data[0].dtype for var in data):
+        return data
+    return tuple(
+        unique(var, return_inverse=True)[1].reshape(var.shape) for var in data
+    )
+
+
 def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     """Reduce the data to the joint space.
 
@@ -200,7 +225,7 @@ def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     if isinstance(data, Generator):
         data = tuple(data)
     if isinstance(data, tuple):
-        data = column_stack(data)
+        data = column_stack(label_mixed_types(*(asarray(var) for var in data)))
     if data.ndim == 2:
         # Reduce the data to the joint space using the numpy unique function
         return unique(data, axis=0, return_inverse=True)[1]  # use inverse indices
-- 
2.43.0


From 5245602e98d53c736a90a0a35b95f2a952db1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 24/31] fix: report no t-score when all null values of a
 statistical test are equal

The standard deviation of equal values can be a rounding error instead of zero,
and the t-score was then that rounding error divided by itself.
---
 infomeasure/estimators/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index e7ae34b..4a89238 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -221,7 +221,10 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
 
         # Calculate basic statistics
         null_mean = np_mean(test_values)
-        null_std = std(test_values, ddof=1)  # Unbiased estimator (dividing by N-1)
+        # Unbiased estimator (dividing by N-1), exactly zero if there is no variance
+        null_std = (
+            std(test_values, ddof=1) if any(test_values != test_values[0]) else 0.0
+        )
 
         # Compute *p*-value: proportion of test values greater than the observed value
         p_value = np_sum(test_values > observed_value) / len(test_values)
-- 
2.43.0


From 715867c5c2197527d31270a377938cd2f86ec86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 25/31] fix: refuse a non-positive or non-integer number of
 neighbours in the KSG estimators

---
 .../kraskov_stoegbauer_grassberger.py            | 16 +++++++++++++++-
 .../kraskov_stoegbauer_grassberger.py            |  7 ++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 1ace566..958a301 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,16 @@
 
 from abc import ABC
 
-from numpy import column_stack, inf, array, ndarray, log, nextafter
+from numpy import (
+    array,
+    column_stack,
+    inf,
+    integer,
+    issubdtype,
+    log,
+    ndarray,
+    nextafter,
+)
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -107,6 +116,11 @@ class BaseKSGMIEstimator(ABC):
             )
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 21e3646..7346621 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import array, inf, ndarray, log, nextafter
+from numpy import array, inf, integer, issubdtype, log, ndarray, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -130,6 +130,11 @@ class BaseKSGTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
-- 
2.43.0


From 0e660ab9c57655586a3521f328c6517ff2bb86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 26/31] fix: refuse more neighbours than points in the KL and
 KSG estimators

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py  | 10 ++++++++++
 .../kraskov_stoegbauer_grassberger.py                  | 10 ++++++++++
 .../transfer_entropy/kraskov_stoegbauer_grassberger.py | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 63bc917..2abe56a 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -186,6 +186,11 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy)
 
         # Find the k-th nearest neighbors for each point
+        if self.k >= len(data_noisy):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree.query(data_noisy, self.k + 1, p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
@@ -242,6 +247,11 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy_q)
 
         # Find the k-th nearest neighbors for each point
+        if self.k > len(data_noisy_q):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 958a301..a82e2d7 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -193,6 +193,11 @@ class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
 
         # Find the k-th nearest neighbor distance for each point in joint space using
         # the maximum norm
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree_joint.query(data_joint, k=self.k + 1, p=self.minkowski_p)
         kth_distances = distances[:, -1]
 
@@ -308,6 +313,11 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
         tree_joint = KDTree(data_joint)
 
         # Find k-th nearest neighbor distances in joint space
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree_joint.query(data_joint, k=self.k + 1, p=self.minkowski_p)
         kth_distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 7346621..4513a3e 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -213,6 +213,11 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
         tree_joint = KDTree(joint_space_data)
 
         # Find distances to the k-th nearest neighbor in the joint space
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree_joint.query(
             joint_space_data, k=self.k + 1, p=self.minkowski_p
         )
@@ -369,6 +374,11 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
         tree_joint = KDTree(joint_space_data)
 
         # Find distances to the k-th nearest
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         distances, _ = tree_joint.query(
             joint_space_data, k=self.k + 1, p=self.minkowski_p
         )
-- 
2.43.0


From 4c2047bd10603f5b6069ad6ea67b262d929dc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 27/31] fix: box kernel densities of a single observation stay
 an array

---
 infomeasure/estimators/utils/kde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..1315060 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -5,6 +5,7 @@ from multiprocessing import Pool, cpu_count
 from numpy import (
     argsort,
     array_split,
+    atleast_1d,
     concatenate,
     cov,
     dot,
@@ -94,8 +95,9 @@ def kde_probability_density_function(
         )
         densities = counts / (N * volume)
 
-        # Squeeze the densities array to remove any single-dimensional entries
-        return densities.squeeze()
+        # Squeeze the densities array to remove any single-dimensional entries,
+        # also a single density stays an array
+        return atleast_1d(densities.squeeze())
     # Another approach to box kernel density estimation
     else:  # TODO: Add more kernel types as needed
         raise ValueError(f"Unsupported kernel type: {kernel}. Use 'gaussian' or 'box'.")
-- 
2.43.0


From c7c2e43c1a845a4a8d9f0884cfcfe7c2b259a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 28/31] fix: refuse multi-dimensional variables beyond the
 second when normalising CMI

---
 infomeasure/estimators/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 8e52b10..a0c8843 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -683,9 +683,7 @@ class ConditionalMutualInformationEstimator(
         self.cond = cond
         # Normalize the data
         self.normalize = normalize
-        if self.normalize and (
-            self.data[0].ndim != 1 or self.data[1].ndim != 1 or self.cond.ndim != 1
-        ):
+        if self.normalize and any(var.ndim != 1 for var in (*self.data, self.cond)):
             raise ValueError("Data arrays must be 1D for normalization.")
         if self.normalize:
             self.data = tuple(normalize_data_0_1(var) for var in self.data)
-- 
2.43.0


From 55c1bcd85708b6d81bb87401042793fc11687b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:34 +0000
Subject: [PATCH 29/31] fix: judge degenerate Gaussian kernel data relative to
 their scale when it is small

---
 infomeasure/estimators/utils/kde.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 1315060..421b119 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -125,6 +125,7 @@ def gaussian_kernel_densities(
         Number of workers to use for parallel processing. Default is 1.
     eigen_threshold : float, optional
         Threshold for eigenvalues to determine rank of data. Default is 1e-10.
+        If the largest eigenvalue is below one, the threshold is relative to it.
 
     Returns
     -------
@@ -141,7 +142,10 @@ def gaussian_kernel_densities(
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
         # Get the number of eigenvalues greater than the threshold
-        num_non_zero_eigenvalues = np_sum(values_sorted > eigen_threshold)
+        # (relative to the largest one, if the data have a small scale)
+        num_non_zero_eigenvalues = np_sum(
+            values_sorted > eigen_threshold * min(1.0, values_sorted[0])
+        )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
             logger.debug(
-- 
2.43.0


From 9564fa74bce5b980c607866c2c6e41f9d6fa2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:01 +0000
Subject: [PATCH 30/31] fix: widen narrow integer counts before estimating from
 them

---
 infomeasure/utils/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/infomeasure/utils/data.py b/infomeasure/utils/data.py
index 89d0633..e615971 100644
--- a/infomeasure/utils/data.py
+++ b/infomeasure/utils/data.py
@@ -2,7 +2,7 @@
 
 from dataclasses import dataclass, field
 
-from numpy import ndarray, unique, asarray, percentile, integer, issubdtype
+from numpy import ndarray, unique, asarray, percentile, int64, integer, issubdtype
 
 
 @dataclass(frozen=True)
@@ -85,6 +85,9 @@ class DiscreteData:
             raise ValueError("counts must sum to a positive value")
         if not issubdtype(self.counts.dtype, integer):
             raise ValueError("counts must be integers")
+        if self.counts.dtype.itemsize < 8:
+            # Narrow count types overflow in the estimators' arithmetic
+            object.__setattr__(self, "counts", self.counts.astype(int64))
 
         # Set K (number of unique values)
         object.__setattr__(self, "K", len(self.uniq))
-- 
2.43.0


From 8f98c1a3513484adb3dfe1e503a0fff28c1ee1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:01 +0000
Subject: [PATCH 31/31] fix: leave out values with a count of zero from
 discrete data

---
 infomeasure/utils/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/infomeasure/utils/data.py b/infomeasure/utils/data.py
index e615971..84a9ba5 100644
--- a/infomeasure/utils/data.py
+++ b/infomeasure/utils/data.py
@@ -89,6 +89,12 @@ class DiscreteData:
             # Narrow count types overflow in the estimators' arithmetic
             object.__setattr__(self, "counts", self.counts.astype(int64))
 
+        observed = self.counts > 0
+        if not observed.all():
+            # Values with a count of zero were not observed
+            object.__setattr__(self, "uniq", self.uniq[observed])
+            object.__setattr__(self, "counts", self.counts[observed])
+
         # Set K (number of unique values)
         object.__setattr__(self, "K", len(self.uniq))
 
-- 
2.43.0

