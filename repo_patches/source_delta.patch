From 9c1841e3045c893e5fad75edc5f80d093571ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:29 +0000
Subject: [PATCH 01/41] fix: use a valid thread index for predictions if
 multi-threading support is disabled

The scratch memory used for obtaining predictions consists of one row per
thread. If multi-threading support is not available in a compilation unit, the
hard-coded index 1 refers to a row beyond the end of that memory if a single
thread is used.
---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 108617a1ef850331f710e51eb66c99bef00a2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:29 +0000
Subject: [PATCH 02/41] fix: initialize the flag that controls the removal of
 unused rules when using pre-pruning

The member variable was never assigned by the constructor of the factory, such
that it depended on the previous content of the memory whether the induction of
rules is stopped or not.
---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..3f70996 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent), minImprovement_(minImprovement) {
+        }
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From b36bc4a7ba5df753ee1923064718b71bd05e4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 03/41] fix: do not compile multi-threading support out of
 libraries that depend on mlrlcommon

The headers included "config.hpp", which resolves to the configuration of the
boosting or SeCo library when these are compiled and does not define
MULTI_THREADING_SUPPORT_ENABLED there. As a consequence, predictions and initial
statistics were never computed in parallel, and automatic settings always used a
single thread.
---
 .../statistics_provider_non_decomposable_dense.cpp           | 5 +++--
 cpp/subprojects/common/include/mlrl/common/util/openmp.hpp   | 5 +++++
 cpp/subprojects/common/include/mlrl/common/util/threads.hpp  | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
index 11980bf..73081ed 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp
@@ -120,7 +120,7 @@ namespace boosting {
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numRows) firstprivate(numCols) \
       firstprivate(decomposableStatisticMatrixRawPtr) firstprivate(NonDecomposableStatisticViewRawPtr) \
-      schedule(dynamic) num_threads(numThreads)
+      schedule(dynamic) num_threads(multiThreadingSettings.numThreads)
 #endif
                 for (int64 i = 0; i < numRows; i++) {
                     CContiguousView<Tuple<float64>>::value_iterator iterator =
@@ -162,7 +162,8 @@ namespace boosting {
 
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numExamples) firstprivate(lossRawPtr) firstprivate(outputMatrixPtr) \
-      firstprivate(scoreMatrixRawPtr) firstprivate(statisticMatrixRawPtr) schedule(dynamic) num_threads(numThreads)
+      firstprivate(scoreMatrixRawPtr) firstprivate(statisticMatrixRawPtr) schedule(dynamic) \
+      num_threads(multiThreadingSettings.numThreads)
 #endif
         for (int64 i = 0; i < numExamples; i++) {
             lossRawPtr->updateNonDecomposableStatistics(i, *outputMatrixPtr, *scoreMatrixRawPtr,
diff --git a/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp b/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
index 2321508..f6d2d3e 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
@@ -5,6 +5,11 @@
 
 #include "config.hpp"
 
+// "config.hpp" may be the configuration of a library that depends on this one, which does not define this macro
+#if !defined(MULTI_THREADING_SUPPORT_ENABLED) && defined(_OPENMP)
+    #define MULTI_THREADING_SUPPORT_ENABLED 1
+#endif
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #include "omp.h"
 #endif
diff --git a/cpp/subprojects/common/include/mlrl/common/util/threads.hpp b/cpp/subprojects/common/include/mlrl/common/util/threads.hpp
index 9b1428e..b5a1ee3 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/threads.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/threads.hpp
@@ -3,8 +3,8 @@
  */
 #pragma once
 
-#include "config.hpp"
 #include "mlrl/common/data/types.hpp"
+#include "mlrl/common/util/openmp.hpp"
 
 #include <algorithm>
 #include <thread>
-- 
2.43.0


From 954da961155bb69d57a4fdf125a5b8451146a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:21 +0000
Subject: [PATCH 04/41] fix: return copies of the predictions that are obtained
 incrementally

The arrays returned by the function apply_next provided access to memory owned by the incremental predictor. It was
overwritten by subsequent calls and freed together with the predictor.
---
 .../common/mlrl/common/cython/prediction.pyx           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index b630df3..9e394ff 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -49,7 +49,7 @@ cdef class IncrementalBinaryPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef uint8* array = prediction_matrix_ptr.get()
         cdef uint8[:, ::1] prediction_matrix = c_view_uint8(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class BinaryPredictor:
@@ -135,8 +135,8 @@ cdef class IncrementalSparseBinaryPredictor:
         cdef uint32* indices = prediction_matrix_ptr.getIndices()
         cdef uint32* indptr = prediction_matrix_ptr.getIndptr()
         data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
-        pred_indices = np.asarray(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
-        pred_indptr = np.asarray(view_uint32(indptr, num_rows + 1))
+        pred_indices = np.array(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
+        pred_indptr = np.array(view_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
 
 
@@ -226,7 +226,7 @@ cdef class IncrementalScorePredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 cdef class ScorePredictor:
     """
@@ -309,7 +309,7 @@ cdef class IncrementalProbabilityPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class ProbabilityPredictor:
-- 
2.43.0


From c76ad83e7002946465005434ac448efb9f55097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:56 +0000
Subject: [PATCH 05/41] fix: keep the model alive while predictions are
 obtained from it incrementally

Incremental predictors reference the model, the information about the output space and the probability calibration
models of the estimator. These objects were freed if the estimator was deleted or trained again.
---
 .../common/mlrl/common/rule_learners.py       | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..d87e44b 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -117,14 +117,17 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         functionality.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor, *dependencies):
             """
             :param feature_matrix:          A `RowWiseFeatureMatrix` that stores the feature values of the query
                                             examples
             :param incremental_predictor:   The incremental predictor to be used for obtaining predictions
+            :param dependencies:            Objects, e.g., the model, that are referenced by the incremental predictor
+                                            and must be kept alive as long as it is in use
             """
             self.feature_matrix = feature_matrix
             self.incremental_predictor = incremental_predictor
+            self.dependencies = dependencies
 
         def has_next(self) -> bool:
             """
@@ -149,13 +152,16 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         Allows to obtain predictions from a `RuleLearner` incrementally.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor,
+                     *dependencies):
             """
             :param feature_matrix:  A `RowWiseFeatureMatrix` that stores the feature values of the query examples
             :param model:           The model to be used for obtaining predictions
             :param max_rules:       The maximum number of rules to be used for prediction. Must be at least 1 or 0, if
                                     the number of rules should not be restricted
             :param predictor:       The predictor to be used for obtaining predictions
+            :param dependencies:    Objects that are referenced by the predictor and must be kept alive as long as it is
+                                    in use
             """
             if max_rules != 0:
                 assert_greater_or_equal('max_rules', max_rules, 1)
@@ -163,6 +169,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
             self.num_total_rules = min(model.get_num_used_rules(),
                                        max_rules) if max_rules > 0 else model.get_num_used_rules()
             self.predictor = predictor
+            self.dependencies = (model, ) + dependencies
             self.num_considered_rules = 0
 
         def get_num_next(self) -> int:
@@ -257,14 +264,15 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         if learner.can_predict_scores(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted scores')
             model = self.model_
-            predictor = self._create_score_predictor(learner, model, self.output_space_info_, num_outputs,
-                                                     feature_matrix)
+            output_space_info = self.output_space_info_
+            predictor = self._create_score_predictor(learner, model, output_space_info, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, output_space_info)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           output_space_info)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -504,17 +512,16 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
         if learner.can_predict_probabilities(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted probability estimates')
             model = self.model_
-            predictor = self._create_probability_predictor(learner, model, self.output_space_info_,
-                                                           self.marginal_probability_calibration_model_,
-                                                           self.joint_probability_calibration_model_, num_outputs,
-                                                           feature_matrix)
+            dependencies = (self.output_space_info_, self.marginal_probability_calibration_model_,
+                            self.joint_probability_calibration_model_)
+            predictor = self._create_probability_predictor(learner, model, *dependencies, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor)
+                feature_matrix, model, max_rules, predictor, *dependencies)
 
         return super().predict_proba_incrementally(x, **kwargs)
 
@@ -583,16 +590,17 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             sparse_predictions = self.sparse_predictions_
             log.debug('A %s matrix is used to store the predicted labels', 'sparse' if sparse_predictions else 'dense')
             model = self.model_
-            predictor = self._create_binary_predictor(learner, model, self.output_space_info_,
-                                                      self.marginal_probability_calibration_model_,
-                                                      self.joint_probability_calibration_model_, num_outputs,
-                                                      feature_matrix, sparse_predictions)
+            dependencies = (self.output_space_info_, self.marginal_probability_calibration_model_,
+                            self.joint_probability_calibration_model_)
+            predictor = self._create_binary_predictor(learner, model, *dependencies, num_outputs, feature_matrix,
+                                                      sparse_predictions)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           *dependencies)
 
         return super()._predict_binary_incrementally(x, **kwargs)
 
-- 
2.43.0


From 0f1630aec09b5fbc39d7338c3733f1cab6cf5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 06/41] fix: translate C++ exceptions that are thrown during
 training or prediction

Without this, e.g., a failure reported by LAPACK terminated the process instead of raising a Python exception.
---
 .../common/mlrl/common/cython/learner_classification.pxd      | 2 +-
 .../common/mlrl/common/cython/learner_regression.pxd          | 2 +-
 python/subprojects/common/mlrl/common/cython/prediction.pxd   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
index 16338c8..3db73ee 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
@@ -25,7 +25,7 @@ cdef extern from "mlrl/common/learner_classification.hpp" nogil:
         # Functions:
 
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
-                                        const IRowWiseLabelMatrix& labelMatrix) const
+                                        const IRowWiseLabelMatrix& labelMatrix) except +
 
         bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
 
diff --git a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
index 26c822f..707916d 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
@@ -18,7 +18,7 @@ cdef extern from "mlrl/common/learner_regression.hpp" nogil:
         # Functions:
 
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
-                                        const IRowWiseRegressionMatrix& regressionMatrix) const
+                                        const IRowWiseRegressionMatrix& regressionMatrix) except +
 
         bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
 
diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pxd b/python/subprojects/common/mlrl/common/cython/prediction.pxd
index 2e95ad3..f3944c3 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pxd
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pxd
@@ -50,14 +50,14 @@ cdef extern from "mlrl/common/prediction/predictor.hpp" nogil:
 
         uint32 getNumNext() const
 
-        PredictionMatrix& applyNext(uint32 stepSize)
+        PredictionMatrix& applyNext(uint32 stepSize) except +
 
 
     cdef cppclass IPredictor[PredictionMatrix]:
 
         # Functions:
 
-        unique_ptr[PredictionMatrix] predict(uint32 maxRules) const
+        unique_ptr[PredictionMatrix] predict(uint32 maxRules) except +
 
         bool canPredictIncrementally() const
 
-- 
2.43.0


From 09fb74de6951db4017b40f0bba10dfc6844fe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:53 +0000
Subject: [PATCH 07/41] fix: never leave an incomplete model behind if saving
 it fails or is interrupted

---
 .../testbed/mlrl/testbed/persistence.py        | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/persistence.py b/python/subprojects/testbed/mlrl/testbed/persistence.py
index d5c8ab6..4ac5bd7 100644
--- a/python/subprojects/testbed/mlrl/testbed/persistence.py
+++ b/python/subprojects/testbed/mlrl/testbed/persistence.py
@@ -4,6 +4,7 @@ Author: Michael Rapp (michael.rapp.ml@gmail.com)
 Provides classes for saving/loading models to/from disk.
 """
 import logging as log
+import os
 
 from os import path
 
@@ -38,13 +39,26 @@ class ModelPersistence:
         file_path = path.join(self.model_dir, file_name)
         log.debug('Saving model to file \"%s\"...', file_path)
 
+        # The model is written to a temporary file, which replaces an existing file only after it has been written
+        # completely. This ensures that the file never contains an incomplete model.
+        temporary_file_path = file_path + '.tmp'
+
         try:
-            with open(file_path, mode='wb') as output_stream:
+            with open(temporary_file_path, mode='wb') as output_stream:
                 pickle.dump(model, output_stream, -1)
-                log.info('Successfully saved model to file \"%s\"', file_path)
+                output_stream.flush()
+                os.fsync(output_stream.fileno())
+
+            os.replace(temporary_file_path, file_path)
+            log.info('Successfully saved model to file \"%s\"', file_path)
         except IOError:
             log.error('Failed to save model to file \"%s\"', file_path)
 
+            try:
+                os.remove(temporary_file_path)
+            except OSError:
+                pass
+
     def load_model(self, model_name: str, data_split: DataSplit):
         """
         Loads a model from a file.
-- 
2.43.0


From e05bd1c80df0e15f3d3bd745fcbd0713e2617733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 08/41] fix: do not append incremental evaluation results to
 files of previous runs

---
 python/subprojects/testbed/mlrl/testbed/output_writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/output_writer.py b/python/subprojects/testbed/mlrl/testbed/output_writer.py
index b39abfe..a97bc25 100644
--- a/python/subprojects/testbed/mlrl/testbed/output_writer.py
+++ b/python/subprojects/testbed/mlrl/testbed/output_writer.py
@@ -155,6 +155,7 @@ class OutputWriter(ABC):
             super().__init__(options=options)
             self.output_dir = output_dir
             self.file_name = file_name
+            self.written_files = set()
 
         def write_output(self, problem_type: ProblemType, meta_data: MetaData, data_split: DataSplit,
                          data_type: Optional[DataType], prediction_scope: Optional[PredictionScope], output_data,
@@ -174,7 +175,12 @@ class OutputWriter(ABC):
                     file_name = get_file_name_per_fold(file_name, SUFFIX_CSV, data_split.get_fold())
                     file_path = path.join(self.output_dir, file_name)
 
-                    with open_writable_csv_file(file_path, append=incremental_prediction) as csv_file:
+                    # Data must only be appended to files that have been created by this sink. Files that exist from
+                    # previous runs, which have possibly been interrupted, are overwritten.
+                    append = incremental_prediction and file_path in self.written_files
+
+                    with open_writable_csv_file(file_path, append=append) as csv_file:
+                        self.written_files.add(file_path)
                         csv_writer = create_csv_dict_writer(csv_file, header)
 
                         for row in tabular_data:
-- 
2.43.0


From 028d9947987425ffe6bb53e5b71f9e1b3f7aba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 09/41] fix: allocate one confusion matrix per label, rather
 than per example, when creating subsets of statistics

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 6afc021d4cb519f948de554c662595d6fc44ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:23 +0000
Subject: [PATCH 10/41] fix: update the total weight of uncovered labels
 atomically if rules are applied to examples in parallel

---
 .../src/mlrl/seco/data/matrix_coverage_dense.cpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
index 81a378f..f1e0f05 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
@@ -1,6 +1,7 @@
 #include "mlrl/seco/data/matrix_coverage_dense.hpp"
 
 #include "mlrl/common/iterator/iterator_forward_sparse_binary.hpp"
+#include "mlrl/common/util/openmp.hpp"
 
 namespace seco {
 
@@ -31,6 +32,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[i];
 
                 if (coverage == 0) {
+#if MULTI_THREADING_SUPPORT_ENABLED
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ -= 1;
                 }
 
@@ -62,6 +66,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[index];
 
                 if (coverage == 0) {
+#if MULTI_THREADING_SUPPORT_ENABLED
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ -= 1;
                 }
 
@@ -90,6 +97,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[i] - 1;
 
                 if (coverage == 0) {
+#if MULTI_THREADING_SUPPORT_ENABLED
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ += 1;
                 }
 
@@ -121,6 +131,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[index] - 1;
 
                 if (coverage == 0) {
+#if MULTI_THREADING_SUPPORT_ENABLED
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ += 1;
                 }
 
-- 
2.43.0


From 0ad778a74169e0a2b08ee6a0852f3e72f16ee446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:23 +0000
Subject: [PATCH 11/41] fix: copy the number of nominal conditions when copying
 the conditions of a rule

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From 9b5f8f6b31fcf47666f82d1b4cbd6b43a8d87a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 12/41] fix: do not refine rules infinitely during beam search
 if conditions do not exclude any examples

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index a911369..ae88af2 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -53,13 +53,16 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
 static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinement& refinement,
                              std::unique_ptr<IFeatureSubspace> featureSubspacePtr,
                              std::unique_ptr<ConditionList> conditionListPtr, bool keepHead, uint32 minCoverage) {
+    uint32 numPreviouslyCovered = featureSubspacePtr->getNumCovered();
     featureSubspacePtr->filterSubspace(refinement);
     newEntry.featureSubspacePtr = std::move(featureSubspacePtr);
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
 
-    if (refinement.numCovered <= minCoverage) {
+    // If the rule cannot be specialized any further or if the new condition does not exclude any examples, in which case
+    // it could be added over and over again, the entry must not be refined any further...
+    if (refinement.numCovered <= minCoverage || refinement.numCovered >= numPreviouslyCovered) {
         newEntry.outputIndices = nullptr;
     } else {
         newEntry.outputIndices = keepHead ? newEntry.headPtr.get() : oldEntry.outputIndices;
-- 
2.43.0


From 9b474b47b43c5aa9a3c91796619266b6cfcdcc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 13/41] fix: do not access elements of empty lists when fitting
 or applying isotonic calibration models

---
 .../prediction/probability_calibration_isotonic.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..7f98ae4 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -102,6 +102,11 @@ static inline void aggregateNonIncreasingBins(ListOfLists<Tuple<float64>>::row b
 }
 
 static inline float64 calibrateProbability(ListOfLists<Tuple<float64>>::const_row bins, float64 probability) {
+    // If no bins are available, the probability cannot be calibrated...
+    if (bins.empty()) {
+        return probability;
+    }
+
     // Find the bins that impose a lower and upper bound on the probability...
     ListOfLists<Tuple<float64>>::value_const_iterator begin = bins.cbegin();
     ListOfLists<Tuple<float64>>::value_const_iterator end = bins.cend();
@@ -140,8 +145,12 @@ void IsotonicProbabilityCalibrationModel::fit() {
 
     for (uint32 i = 0; i < numLists; i++) {
         row bins = (*this)[i];
-        sortByThresholdsAndEliminateDuplicates(bins);
-        aggregateNonIncreasingBins(bins);
+
+        // The list is empty, if no examples are available for fitting the model...
+        if (!bins.empty()) {
+            sortByThresholdsAndEliminateDuplicates(bins);
+            aggregateNonIncreasingBins(bins);
+        }
     }
 }
 
-- 
2.43.0


From cb9f7fc0659078c41cedaf1d508a2ff6d996ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 14/41] fix: do not access thresholds out of bounds when using
 feature binning

---
 .../src/mlrl/common/input/feature_based_search_binned.hpp   | 4 ++--
 .../mlrl/common/input/feature_binning_equal_frequency.cpp   | 5 +++--
 .../src/mlrl/common/input/feature_binning_equal_width.cpp   | 6 +++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
index 27118ba..e7cb389 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
@@ -143,10 +143,10 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
     }
 
     // Check if a condition that covers all bins with indices `i <= sparseBinIndex` covers at least `minCoverage`
-    // examples...
+    // examples. If there are no bins with indices `i > sparseBinIndex`, no such condition exists...
     uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
 
-    if (numUncovered >= minCoverage) {
+    if (numCovered > 0 && numUncovered >= minCoverage) {
         // Determine the best prediction for examples covered by the condition...
         const IScoreVector& scoreVector = statisticsSubset.calculateScores();
 
diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
index ec1c5fc..18cf082 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
@@ -12,12 +12,13 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
 
     if (numBins > 1) {
         uint32 numElements = numericalFeatureVector.numElements;
-        AllocatedBinnedFeatureVector binnedFeatureVector(numBins, numElements);
+        bool sparse = numericalFeatureVector.sparse;
+        // An additional bin might be needed for sparse values...
+        AllocatedBinnedFeatureVector binnedFeatureVector(sparse ? numBins + 1 : numBins, numElements);
         AllocatedBinnedFeatureVector::threshold_iterator thresholdIterator = binnedFeatureVector.thresholds_begin();
         AllocatedBinnedFeatureVector::index_iterator indexIterator = binnedFeatureVector.indices;
         AllocatedBinnedFeatureVector::index_iterator indptrIterator = binnedFeatureVector.indptr;
         uint32 numElementsPerBin = static_cast<uint32>(std::ceil((float64) numElements / (float64) numBins));
-        bool sparse = numericalFeatureVector.sparse;
         float32 sparseValue = numericalFeatureVector.sparseValue;
         float32 previousValue = sparseValue;
         uint32 numElementsInCurrentBin = 0;
diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
index d02a231..fae8fe4 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
@@ -78,7 +78,11 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
             uint32 numExamplesInCurrentBin = numExamplesPerBin[i];
 
             if (i == sparseBinIndex || numExamplesInCurrentBin > 0) {
-                thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                // No threshold is needed for the last bin...
+                if (numBins < numWidths - 1) {
+                    thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                }
+
                 indptrIterator[numBins] = numIndices;
 
                 if (i != sparseBinIndex) {
-- 
2.43.0


From 6d42b7caef632dab26ad923788797bcd26f0382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 15/41] fix: sort the predictions of rules that are learned via
 beam search by their output indices

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index ae88af2..62c114f 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -47,6 +47,8 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.conditionListPtr = std::make_unique<ConditionList>();
     entry.conditionListPtr->addCondition(refinement);
     entry.headPtr = std::move(refinement.headPtr);
+    // Sort the rule's predictions by the corresponding output indices...
+    entry.headPtr->sort();
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
 }
 
@@ -59,6 +61,8 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinemen
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
+    // Sort the rule's predictions by the corresponding output indices...
+    newEntry.headPtr->sort();
 
     // If the rule cannot be specialized any further or if the new condition does not exclude any examples, in which case
     // it could be added over and over again, the entry must not be refined any further...
-- 
2.43.0


From 4b56b495aee67e17c411d4700881b40f6b96e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:12 +0000
Subject: [PATCH 16/41] fix: do not terminate the process if an exception is
 thrown within a parallel region

---
 ...tatistics_provider_decomposable_sparse.cpp | 11 +++-
 .../common/prediction/predictor_common.hpp    | 26 ++++++--
 .../include/mlrl/common/util/openmp.hpp       | 64 +++++++++++++++++++
 .../rule_refinement/feature_space_tabular.cpp | 24 +++++--
 .../rule_refinement_statistics_based.cpp      | 25 +++++---
 5 files changed, 127 insertions(+), 23 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_decomposable_sparse.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_decomposable_sparse.cpp
index 0a53569..020dc56 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_decomposable_sparse.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/statistics/statistics_provider_decomposable_sparse.cpp
@@ -97,16 +97,23 @@ namespace boosting {
         const SparseSetView<float64>* scoreMatrixRawPtr = &scoreMatrixPtr->getView();
         SparseSetView<Tuple<float64>>* statisticMatrixRawPtr = &statisticMatrixPtr->getView();
 
+        util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numExamples) firstprivate(lossRawPtr) firstprivate(outputMatrixPtr) \
       firstprivate(scoreMatrixRawPtr) firstprivate(statisticMatrixRawPtr) schedule(dynamic) \
       num_threads(multiThreadingSettings.numThreads)
 #endif
         for (int64 i = 0; i < numExamples; i++) {
-            lossRawPtr->updateDecomposableStatistics(i, *outputMatrixPtr, *scoreMatrixRawPtr, IndexIterator(),
-                                                     IndexIterator(outputMatrixPtr->numCols), *statisticMatrixRawPtr);
+            exceptionHandler.run(i, [&]() {
+                lossRawPtr->updateDecomposableStatistics(
+                  i, *outputMatrixPtr, *scoreMatrixRawPtr, IndexIterator(), IndexIterator(outputMatrixPtr->numCols),
+                  *statisticMatrixRawPtr);
+            });
         }
 
+        exceptionHandler.rethrow();
+
         return std::make_unique<SparseDecomposableStatistics<OutputMatrix>>(
           std::move(lossPtr), std::move(evaluationMeasurePtr), ruleEvaluationFactory, outputMatrix,
           std::move(statisticMatrixPtr), std::move(scoreMatrixPtr));
diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index 0b4e398..4a57c67 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -72,19 +72,25 @@ class PredictionDispatcher final {
             const IPredictionDelegate* delegatePtr = &delegate;
             const FeatureMatrix* featureMatrixPtr = &featureMatrix;
 
+            util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numExamples) firstprivate(delegatePtr) firstprivate(rulesBegin) \
       firstprivate(rulesEnd) firstprivate(featureMatrixPtr) schedule(dynamic) \
       num_threads(multiThreadingSettings.numThreads)
 #endif
             for (int64 i = 0; i < numExamples; i++) {
+                exceptionHandler.run(i, [&]() {
 #if MULTI_THREADING_SUPPORT_ENABLED
-                uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
+                    uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 0;
+                    uint32 threadIndex = 0;
 #endif
-                delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
+                    delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
+                });
             }
+
+            exceptionHandler.rethrow();
         }
 };
 
@@ -156,21 +162,27 @@ class BinarySparsePredictionDispatcher final {
             const FeatureMatrix* featureMatrixPtr = &featureMatrix;
             uint32 numDenseElements = 0;
 
+            util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for reduction(+ : numDenseElements) firstprivate(numExamples) firstprivate(delegatePtr) \
       firstprivate(rulesBegin) firstprivate(rulesEnd) firstprivate(featureMatrixPtr) schedule(dynamic) \
       num_threads(multiThreadingSettings.numThreads)
 #endif
             for (int64 i = 0; i < numExamples; i++) {
+                exceptionHandler.run(i, [&]() {
 #if MULTI_THREADING_SUPPORT_ENABLED
-                uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
+                    uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 0;
+                    uint32 threadIndex = 0;
 #endif
-                numDenseElements +=
-                  delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
+                    numDenseElements +=
+                      delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
+                });
             }
 
+            exceptionHandler.rethrow();
+
             return numDenseElements;
         }
 };
diff --git a/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp b/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
index f6d2d3e..a6c9082 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/openmp.hpp
@@ -4,6 +4,9 @@
 #pragma once
 
 #include "config.hpp"
+#include "mlrl/common/data/types.hpp"
+
+#include <exception>
 
 // "config.hpp" may be the configuration of a library that depends on this one, which does not define this macro
 #if !defined(MULTI_THREADING_SUPPORT_ENABLED) && defined(_OPENMP)
@@ -13,3 +16,64 @@
 #if MULTI_THREADING_SUPPORT_ENABLED
     #include "omp.h"
 #endif
+
+namespace util {
+
+    /**
+     * Allows to keep track of exceptions that are thrown by the iterations of a loop that is executed in parallel.
+     * Because exceptions must not leave a parallel region, they are stored, such that they can be rethrown afterwards.
+     */
+    class ParallelExceptionHandler final {
+        private:
+
+            std::exception_ptr exceptionPtr_;
+
+            int64 iteration_ = 0;
+
+        public:
+
+            /**
+             * Executes an iteration of a loop and catches any exception it throws. If several iterations throw an
+             * exception, the one that is thrown by the iteration with the smallest index is stored.
+             *
+             * @tparam Function The type of the function that executes the iteration
+             * @param iteration The index of the iteration
+             * @param function  The function that executes the iteration
+             */
+            template<typename Function>
+            void run(int64 iteration, const Function& function) {
+                try {
+                    function();
+                } catch (...) {
+#if MULTI_THREADING_SUPPORT_ENABLED
+    #pragma omp critical(ParallelExceptionHandler)
+#endif
+                    {
+                        if (!exceptionPtr_ || iteration < iteration_) {
+                            exceptionPtr_ = std::current_exception();
+                            iteration_ = iteration;
+                        }
+                    }
+                }
+            }
+
+            /**
+             * Returns whether an exception has been stored or not.
+             *
+             * @return True, if an exception has been stored, false otherwise
+             */
+            bool hasException() const {
+                return exceptionPtr_ != nullptr;
+            }
+
+            /**
+             * Rethrows the exception that has been stored, if any.
+             */
+            void rethrow() const {
+                if (exceptionPtr_) {
+                    std::rethrow_exception(exceptionPtr_);
+                }
+            }
+    };
+
+}
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp b/cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp
index 9b74db1..9385856 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp
@@ -277,16 +277,22 @@ class TabularFeatureSpace final : public IFeatureSpace {
                       prediction.createStatisticsUpdate(statistics);
                     IStatisticsUpdate* statisticsUpdateRawPtr = statisticsUpdatePtr.get();
 
+                    util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numStatistics) firstprivate(coverageMaskPtr) \
       firstprivate(statisticsUpdateRawPtr) schedule(dynamic) \
       num_threads(featureSpace_.multiThreadingSettings_.numThreads)
 #endif
                     for (int64 i = 0; i < numStatistics; i++) {
-                        if ((*coverageMaskPtr)[i]) {
-                            statisticsUpdateRawPtr->applyPrediction(i);
-                        }
+                        exceptionHandler.run(i, [&]() {
+                            if ((*coverageMaskPtr)[i]) {
+                                statisticsUpdateRawPtr->applyPrediction(i);
+                            }
+                        });
                     }
+
+                    exceptionHandler.rethrow();
                 }
 
                 void revertPrediction(const IPrediction& prediction) override {
@@ -297,16 +303,22 @@ class TabularFeatureSpace final : public IFeatureSpace {
                       prediction.createStatisticsUpdate(statistics);
                     IStatisticsUpdate* statisticsUpdateRawPtr = statisticsUpdatePtr.get();
 
+                    util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numStatistics) firstprivate(coverageMaskPtr) \
       firstprivate(statisticsUpdateRawPtr) schedule(dynamic) \
       num_threads(featureSpace_.multiThreadingSettings_.numThreads)
 #endif
                     for (int64 i = 0; i < numStatistics; i++) {
-                        if ((*coverageMaskPtr)[i]) {
-                            statisticsUpdateRawPtr->revertPrediction(i);
-                        }
+                        exceptionHandler.run(i, [&]() {
+                            if ((*coverageMaskPtr)[i]) {
+                                statisticsUpdateRawPtr->revertPrediction(i);
+                            }
+                        });
                     }
+
+                    exceptionHandler.rethrow();
                 }
         };
 
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp b/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
index 3d168c5..5e14df4 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp
@@ -43,19 +43,28 @@ static inline bool findRefinementInternally(RefinementComparator& refinementComp
     }
 
     // Search for the best condition among all available features to be added to the current rule...
+    util::ParallelExceptionHandler exceptionHandler;
+
 #if MULTI_THREADING_SUPPORT_ENABLED
     #pragma omp parallel for firstprivate(numFeatures) firstprivate(ruleRefinementEntries) firstprivate(minCoverage) \
       schedule(dynamic) num_threads(multiThreadingSettings.numThreads)
 #endif
     for (int64 i = 0; i < numFeatures; i++) {
-        uint32 featureIndex = featureIndices.getIndex(i);
-        RuleRefinementEntry<RefinementComparator>& ruleRefinementEntry = ruleRefinementEntries[i];
-        RefinementComparator& refinementComparator = *ruleRefinementEntry.comparatorPtr;
-        IFeatureSubspace::ICallback::Result callbackResult = ruleRefinementEntry.callbackPtr->invoke();
-        const IFeatureVector& featureVector = callbackResult.featureVector;
-        const IWeightedStatistics& statistics = callbackResult.statistics;
-        findRefinementInternally(refinementComparator, outputIndices, featureIndex, statistics, featureVector,
-                                 featureSubspace.getNumCovered(), minCoverage);
+        exceptionHandler.run(i, [&]() {
+            uint32 featureIndex = featureIndices.getIndex(i);
+            RuleRefinementEntry<RefinementComparator>& ruleRefinementEntry = ruleRefinementEntries[i];
+            RefinementComparator& refinementComparator = *ruleRefinementEntry.comparatorPtr;
+            IFeatureSubspace::ICallback::Result callbackResult = ruleRefinementEntry.callbackPtr->invoke();
+            const IFeatureVector& featureVector = callbackResult.featureVector;
+            const IWeightedStatistics& statistics = callbackResult.statistics;
+            findRefinementInternally(refinementComparator, outputIndices, featureIndex, statistics, featureVector,
+                                     featureSubspace.getNumCovered(), minCoverage);
+        });
+    }
+
+    if (exceptionHandler.hasException()) {
+        delete[] ruleRefinementEntries;
+        exceptionHandler.rethrow();
     }
 
     // Pick the best refinement among the refinements that have been found for the different features...
-- 
2.43.0


From 4060158b60db39fb3ddbd4d65ef96aafcdb0b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:17 +0000
Subject: [PATCH 17/41] fix: throw an exception if memory cannot be allocated

---
 .../include/mlrl/common/util/memory.hpp       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/memory.hpp b/cpp/subprojects/common/include/mlrl/common/util/memory.hpp
index 3f92bf9..8ddcb8f 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/memory.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/memory.hpp
@@ -6,6 +6,7 @@
 #include "mlrl/common/data/types.hpp"
 
 #include <cstdlib>
+#include <new>
 
 namespace util {
 
@@ -19,11 +20,13 @@ namespace util {
      */
     template<typename T>
     static inline constexpr T* allocateMemory(uint32 numElements, bool init = false) {
-        if (init) {
-            return reinterpret_cast<T*>(calloc(numElements, sizeof(T)));
-        } else {
-            return reinterpret_cast<T*>(malloc(numElements * sizeof(T)));
+        T* array = reinterpret_cast<T*>(init ? calloc(numElements, sizeof(T)) : malloc(numElements * sizeof(T)));
+
+        if (!array && numElements > 0) {
+            throw std::bad_alloc();
         }
+
+        return array;
     }
 
     /**
@@ -36,7 +39,13 @@ namespace util {
      */
     template<typename T>
     static inline constexpr T* reallocateMemory(T* array, uint32 numElements) {
-        return reinterpret_cast<T*>(realloc(array, numElements * sizeof(T)));
+        T* newArray = reinterpret_cast<T*>(realloc(array, numElements * sizeof(T)));
+
+        if (!newArray && numElements > 0) {
+            throw std::bad_alloc();
+        }
+
+        return newArray;
     }
 
     /**
-- 
2.43.0


From b1d1831ef21dbbbd59cec124354f4f9c04335afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 18/41] fix: allocate enough bins for labels with positive and
 negative criteria

---
 .../src/mlrl/boosting/binning/label_binning_equal_width.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
index c3e29f4..e8e4703 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
@@ -38,7 +38,8 @@ namespace boosting {
                 : binRatio_(binRatio), minBins_(minBins), maxBins_(maxBins) {}
 
             uint32 getMaxBins(uint32 numLabels) const override {
-                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
+                // The number of bins is bounded individually for labels with positive and negative criteria...
+                return 2 * util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_);
             }
 
             LabelInfo getLabelInfo(View<float64>::const_iterator criteria, uint32 numCriteria) const override {
-- 
2.43.0


From 1e0433d3cb93de7ffb065dbc058e60086cb151f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 19/41] fix: do not sample features out of bounds if all of
 them are retained

---
 .../common/sampling/feature_sampling_without_replacement.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..7fdc930 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,10 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From c695d469908d3aff3a07a2b697720b0e26d88a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:03 +0000
Subject: [PATCH 20/41] fix: preserve explicitly stored zeros when converting
 sparse matrices with a custom sparse value

---
 python/subprojects/common/mlrl/common/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..e1efdef 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,7 +144,8 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
+            coo_array = array.tocoo()  # In contrast to `array.nonzero()`, explicitly stored zeros are taken into account
+            dense_array[coo_array.row, coo_array.col] = 0
             dense_array += array
             return np.asarray(dense_array, dtype=dtype, order=order)
         return np.require(array.toarray(order=order), dtype=dtype)
-- 
2.43.0


From 6e528b6ad8eb808d46c7c4d9fe586268fc371fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:17 +0000
Subject: [PATCH 21/41] fix: do not read beyond the end of the rows of binary
 sparse matrices

---
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From deac45294d7ff59213fd82661e5efba5863dc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:39 +0000
Subject: [PATCH 22/41] fix: Keep the predictor and the learner alive as long
 as an incremental predictor is used

Incremental predictors reference objects owned by the predictor or the learner they have been created by, e.g., the
probability calibration models that are used by default. These objects were freed before predictions were obtained.
---
 .../common/mlrl/common/rule_learners.py           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index d87e44b..f6e8875 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -270,9 +270,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, output_space_info)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, output_space_info, learner,
+                    predictor)
             return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
-                                                                           output_space_info)
+                                                                           output_space_info, learner)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -519,9 +520,10 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies, learner,
+                    predictor)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor, *dependencies)
+                feature_matrix, model, max_rules, predictor, *dependencies, learner)
 
         return super().predict_proba_incrementally(x, **kwargs)
 
@@ -598,9 +600,10 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *dependencies, learner,
+                    predictor)
             return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
-                                                                           *dependencies)
+                                                                           *dependencies, learner)
 
         return super()._predict_binary_incrementally(x, **kwargs)
 
-- 
2.43.0


From 2214948d5f9d6918e8af96937b7e30f46971b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:45 +0000
Subject: [PATCH 23/41] fix: Prevent infinite recursion if probabilities cannot
 be predicted incrementally

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index f6e8875..ede460e 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -525,7 +525,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
                 feature_matrix, model, max_rules, predictor, *dependencies, learner)
 
-        return super().predict_proba_incrementally(x, **kwargs)
+        return super()._predict_proba_incrementally(x, **kwargs)
 
     @staticmethod
     def _create_binary_predictor(learner: RuleLearnerWrapper, model: RuleModel, output_space_info: OutputSpaceInfo,
-- 
2.43.0


From 95f5ac25852ffcba366e78815de07db59ac9691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 24/41] fix: handle examples without any labels when writing
 label vectors

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 50c68a4..9cd335d 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -63,7 +63,8 @@ class LabelVectorWriter(OutputWriter):
 
                 for label_vector_string, frequency in unique_label_vector_strings.items():
                     label_vector = np.asarray(
-                        [int(label_index) for label_index in label_vector_string.split(separator)])
+                        [int(label_index) for label_index in label_vector_string.split(separator) if label_index],
+                        dtype=int)
                     unique_label_vectors.append((label_vector, frequency))
 
                 self.unique_label_vectors = unique_label_vectors
-- 
2.43.0


From 6dfdfb295e7075026f8ec06de8613f8e5bc9fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 25/41] fix: use the names of characteristics as the columns of
 tables, as required for incremental predictions

---
 .../testbed/mlrl/testbed/characteristics.py          |  2 +-
 .../testbed/mlrl/testbed/data_characteristics.py     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/characteristics.py b/python/subprojects/testbed/mlrl/testbed/characteristics.py
index 0d1668b..6a1dc58 100644
--- a/python/subprojects/testbed/mlrl/testbed/characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/characteristics.py
@@ -173,7 +173,7 @@ class OutputCharacteristics(Formattable, Tabularizable):
         columns = {}
 
         for formatter in filter_formatters(self.formatters, [options]):
-            columns[formatter] = formatter.format(self, percentage=percentage, decimals=decimals)
+            columns[formatter.name] = formatter.format(self, percentage=percentage, decimals=decimals)
 
         return [columns]
 
diff --git a/python/subprojects/testbed/mlrl/testbed/data_characteristics.py b/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
index 750a364..9e6e050 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
@@ -155,14 +155,14 @@ class DataCharacteristicsWriter(OutputWriter):
             columns = {}
 
             for formatter in filter_formatters(FEATURE_CHARACTERISTICS, [options]):
-                columns[formatter] = formatter.format(self.feature_characteristics,
-                                                      percentage=percentage,
-                                                      decimals=decimals)
+                columns[formatter.name] = formatter.format(self.feature_characteristics,
+                                                           percentage=percentage,
+                                                           decimals=decimals)
 
             for formatter in filter_formatters(self.output_formatters, [options]):
-                columns[formatter] = formatter.format(self.output_characteristics,
-                                                      percentage=percentage,
-                                                      decimals=decimals)
+                columns[formatter.name] = formatter.format(self.output_characteristics,
+                                                           percentage=percentage,
+                                                           decimals=decimals)
 
             return [columns]
 
-- 
2.43.0


From 49150d564b6b093f437329d535fc13c9172115d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 26/41] fix: do not silently use the default parameters if an
 existing parameter file cannot be read

---
 python/subprojects/testbed/mlrl/testbed/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/parameters.py b/python/subprojects/testbed/mlrl/testbed/parameters.py
index e88660e..10821bd 100644
--- a/python/subprojects/testbed/mlrl/testbed/parameters.py
+++ b/python/subprojects/testbed/mlrl/testbed/parameters.py
@@ -57,7 +57,7 @@ class ParameterCsvInput(ParameterInput):
                 csv_reader = create_csv_dict_reader(csv_file)
                 log.info('Successfully loaded parameters from file \"%s\"', file_path)
                 return dict(next(csv_reader))
-        except IOError:
+        except FileNotFoundError:
             log.error('Failed to load parameters from file \"%s\"', file_path)
             return {}
 
-- 
2.43.0


From 6272622c33349fe35fc1a3603ce54ad9e3a96f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 27/41] fix: never leave behind incompletely written CSV files

---
 .../testbed/mlrl/testbed/output_writer.py       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/output_writer.py b/python/subprojects/testbed/mlrl/testbed/output_writer.py
index a97bc25..f4727bc 100644
--- a/python/subprojects/testbed/mlrl/testbed/output_writer.py
+++ b/python/subprojects/testbed/mlrl/testbed/output_writer.py
@@ -6,7 +6,7 @@ Provides utilities for writing output data to sinks like the console or output f
 import logging as log
 
 from abc import ABC, abstractmethod
-from os import path
+from os import fsync, path, replace
 from typing import Any, Dict, List, Optional
 
 from mlrl.common.options import Options
@@ -179,13 +179,24 @@ class OutputWriter(ABC):
                     # previous runs, which have possibly been interrupted, are overwritten.
                     append = incremental_prediction and file_path in self.written_files
 
-                    with open_writable_csv_file(file_path, append=append) as csv_file:
-                        self.written_files.add(file_path)
+                    # Unless data is appended, it is written to a temporary file, which replaces an existing file only
+                    # after it has been written completely. This ensures that the files never contain incomplete data,
+                    # e.g., if they specify the parameters to be used by a subsequent run.
+                    temporary_file_path = file_path if append else file_path + '.tmp'
+
+                    with open_writable_csv_file(temporary_file_path, append=append) as csv_file:
                         csv_writer = create_csv_dict_writer(csv_file, header)
 
                         for row in tabular_data:
                             csv_writer.writerow(row)
 
+                        csv_file.flush()
+                        fsync(csv_file.fileno())
+
+                    if not append:
+                        replace(temporary_file_path, file_path)
+                        self.written_files.add(file_path)
+
     def __init__(self, sinks: List[Sink]):
         """
         :param sinks: A list that contains all sinks, output data should be written to
-- 
2.43.0


From 325b07571562dff10597511ba9d3d254e688f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 28/41] fix: support sparse matrices that do not contain any
 dense elements

---
 .../common/mlrl/common/cython/feature_matrix.pyx          | 8 ++++++--
 .../common/mlrl/common/cython/label_matrix.pyx            | 3 ++-
 .../common/mlrl/common/cython/regression_matrix.pyx       | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
index a2f0ac0..906b445 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
@@ -91,7 +91,9 @@ cdef class CscFeatureMatrix(ColumnWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCscFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCscFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
@@ -156,7 +158,9 @@ cdef class CsrFeatureMatrix(RowWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCsrFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCsrFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
index 1afda7a..b35d044 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
@@ -56,7 +56,8 @@ cdef class CsrLabelMatrix(RowWiseLabelMatrix):
         """
         self.indices = indices
         self.indptr = indptr
-        self.label_matrix_ptr = createCsrLabelMatrix(&indices[0], &indptr[0], num_examples, num_labels)
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.label_matrix_ptr = createCsrLabelMatrix(indices_ptr, &indptr[0], num_examples, num_labels)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
         return self.label_matrix_ptr.get()
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
index f2db3c1..34be58f 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
@@ -57,7 +57,9 @@ cdef class CsrRegressionMatrix(RowWiseRegressionMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.regression_matrix_ptr = createCsrRegressionMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.regression_matrix_ptr = createCsrRegressionMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                                num_outputs)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
-- 
2.43.0


From ba129f66bc44b84915f6410a3bb63eea7b020a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 29/41] fix: use an integer array for representing label
 vectors without any labels

---
 .../common/mlrl/common/cython/output_space_info.pyx            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 6b870de..efb6731 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,8 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.asarray(
+            <uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else np.empty(0, dtype=np.uint32))
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
-- 
2.43.0


From 9439e3c9cc181f287356ff40c89318538a32e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:42 +0000
Subject: [PATCH 30/41] fix: do not rely on the indices of sparse matrices
 given by users being sorted

---
 python/subprojects/common/mlrl/common/rule_learners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index ede460e..0c27a04 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -319,6 +319,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
             log.debug(
                 'A sparse matrix with sparse value %s is used to store the feature values of the training examples',
                 sparse_feature_value)
+            x = x.sorted_indices()
             x_data = np.ascontiguousarray(x.data, dtype=Float32)
             x_indices = np.ascontiguousarray(x.indices, dtype=Uint32)
             x_indptr = np.ascontiguousarray(x.indptr, dtype=Uint32)
@@ -448,6 +449,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+            y = y.sorted_indices()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
@@ -620,6 +622,7 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+            y = y.sorted_indices()
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


From 07b7d801b6e818b4736cd736e7e9aadd31323075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:42 +0000
Subject: [PATCH 31/41] fix: do not treat explicitly stored zeros in sparse
 label matrices as relevant labels

---
 python/subprojects/common/mlrl/common/rule_learners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 0c27a04..e2bbb29 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -450,6 +450,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
             y = y.sorted_indices()
+            y.eliminate_zeros()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
-- 
2.43.0


From dd7903ffbf0b1234d9201391cc000f549e34c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 32/41] fix: refuse training if the numbers of examples in the
 features and the outputs differ

---
 python/subprojects/common/mlrl/common/rule_learners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index e2bbb29..cd84d1e 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -12,7 +12,7 @@ from typing import Any, Optional
 import numpy as np
 
 from sklearn.base import BaseEstimator as SkLearnBaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 from mlrl.common.arrays import SparseFormat, enforce_2d, enforce_dense, is_sparse, is_sparse_and_memory_efficient
 from mlrl.common.cython.feature_info import EqualFeatureInfo, FeatureInfo, MixedFeatureInfo
@@ -206,6 +206,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         :keyword sparse_feature_value: The value that should be used for sparse elements in the feature matrix. Does
                                        only have an effect if `x` is a `scipy.sparse.spmatrix` or `scipy.sparse.sparray`
         """
+        check_consistent_length(x, y)
         feature_matrix = self._create_column_wise_feature_matrix(x, **kwargs)
         output_matrix = self.__create_row_wise_output_matrix(y)
         feature_info = self._create_feature_info(feature_matrix.get_num_features())
-- 
2.43.0


From f7fbbe07d307adfd18b49aaaa3a340b11fdda8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 33/41] fix: propagate C++ exceptions from all functions that
 may allocate memory to Python

---
 .../boosting/mlrl/boosting/cython/learner.pxd | 32 ++++----
 .../mlrl/boosting/cython/learner_boomer.pxd   |  8 +-
 .../cython/learner_classification.pxd         | 44 +++++------
 .../mlrl/boosting/cython/prediction.pxd       | 14 ++--
 .../mlrl/common/cython/feature_info.pxd       | 14 ++--
 .../mlrl/common/cython/feature_matrix.pxd     |  8 +-
 .../mlrl/common/cython/label_matrix.pxd       |  6 +-
 .../common/mlrl/common/cython/learner.pxd     | 76 +++++++++----------
 .../common/cython/learner_classification.pxd  | 14 ++--
 .../mlrl/common/cython/learner_regression.pxd |  2 +-
 .../mlrl/common/cython/output_space_info.pxd  |  8 +-
 .../common/cython/probability_calibration.pxd |  6 +-
 .../mlrl/common/cython/regression_matrix.pxd  |  4 +-
 .../common/mlrl/common/cython/rule_model.pxd  |  9 ++-
 .../seco/mlrl/seco/cython/learner.pxd         | 44 +++++------
 .../seco/mlrl/seco/cython/learner_seco.pxd    |  4 +-
 16 files changed, 148 insertions(+), 145 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner.pxd
index 5a4139c..3c5ec56 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner.pxd
@@ -17,109 +17,109 @@ cdef extern from "mlrl/boosting/learner.hpp" namespace "boosting" nogil:
 
         # Functions
 
-        void useAutomaticFeatureBinning()
+        void useAutomaticFeatureBinning() except +
 
 
     cdef cppclass IAutomaticParallelRuleRefinementMixin:
 
         # Functions:
 
-        void useAutomaticParallelRuleRefinement()
+        void useAutomaticParallelRuleRefinement() except +
 
 
     cdef cppclass IAutomaticParallelStatisticUpdateMixin:
 
         # Functions:
 
-        void useAutomaticParallelStatisticUpdate()
+        void useAutomaticParallelStatisticUpdate() except +
 
 
     cdef cppclass IConstantShrinkageMixin:
 
         # Functions:
 
-        IConstantShrinkageConfig& useConstantShrinkagePostProcessor()
+        IConstantShrinkageConfig& useConstantShrinkagePostProcessor() except +
 
 
     cdef cppclass INoL1RegularizationMixin:
 
         # Functions:
 
-        void useNoL1Regularization()
+        void useNoL1Regularization() except +
 
 
     cdef cppclass IL1RegularizationMixin:
 
         # Functions:
 
-        IManualRegularizationConfig& useL1Regularization()
+        IManualRegularizationConfig& useL1Regularization() except +
 
 
     cdef cppclass INoL2RegularizationMixin:
 
         # Functions:
 
-        void useNoL2Regularization()
+        void useNoL2Regularization() except +
 
 
     cdef cppclass IL2RegularizationMixin:
 
         # Functions:
 
-        IManualRegularizationConfig& useL2Regularization()
+        IManualRegularizationConfig& useL2Regularization() except +
 
 
     cdef cppclass ICompleteHeadMixin:
 
         # Functions:
 
-        void useCompleteHeads()
+        void useCompleteHeads() except +
 
 
     cdef cppclass IFixedPartialHeadMixin:
 
         # Functions:
 
-        IFixedPartialHeadConfig& useFixedPartialHeads()
+        IFixedPartialHeadConfig& useFixedPartialHeads() except +
 
 
     cdef cppclass IDynamicPartialHeadMixin:
 
         # Functions:
 
-        IDynamicPartialHeadConfig& useDynamicPartialHeads()
+        IDynamicPartialHeadConfig& useDynamicPartialHeads() except +
 
 
     cdef cppclass ISingleOutputHeadMixin:
 
         # Functions:
         
-        void useSingleOutputHeads()
+        void useSingleOutputHeads() except +
 
 
     cdef cppclass IAutomaticHeadMixin:
 
         # Functions:
 
-        void useAutomaticHeads()
+        void useAutomaticHeads() except +
 
 
     cdef cppclass INonDecomposableSquaredErrorLossMixin:
 
         # Functions:
 
-        void useNonDecomposableSquaredErrorLoss()
+        void useNonDecomposableSquaredErrorLoss() except +
 
 
     cdef cppclass IDecomposableSquaredErrorLossMixin:
 
         # Functions:
 
-        void useDecomposableSquaredErrorLoss()
+        void useDecomposableSquaredErrorLoss() except +
 
 
     cdef cppclass IOutputWiseScorePredictorMixin:
 
         # Functions:
 
-        void useOutputWiseScorePredictor()
+        void useOutputWiseScorePredictor() except +
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
index 9c9c192..9e1a34e 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
@@ -123,12 +123,12 @@ cdef extern from "mlrl/boosting/learner_boomer_classifier.hpp" namespace "boosti
         pass
 
 
-    unique_ptr[IBoomerClassifierConfig] createBoomerClassifierConfig()
+    unique_ptr[IBoomerClassifierConfig] createBoomerClassifierConfig() except +
 
 
     unique_ptr[IBoomerClassifier] createBoomerClassifier(unique_ptr[IBoomerClassifierConfig] configPtr,
                                                          DdotFunction ddotFunction, DspmvFunction dspmvFunction, 
-                                                         DsysvFunction dsysvFunction)
+                                                         DsysvFunction dsysvFunction) except +
 
 
 cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boosting" nogil:
@@ -197,12 +197,12 @@ cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boostin
         pass
 
 
-    unique_ptr[IBoomerRegressorConfig] createBoomerRegressorConfig()
+    unique_ptr[IBoomerRegressorConfig] createBoomerRegressorConfig() except +
 
 
     unique_ptr[IBoomerRegressor] createBoomerRegressor(unique_ptr[IBoomerRegressorConfig] configPtr,
                                                        DdotFunction ddotFunction, DspmvFunction dspmvFunction,
-                                                       DsysvFunction dsysvFunction)
+                                                       DsysvFunction dsysvFunction) except +
 
 
 cdef class BoomerClassifierConfig(RuleLearnerConfig):
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_classification.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_classification.pxd
index 5afe35b..bae02b1 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_classification.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_classification.pxd
@@ -11,151 +11,151 @@ cdef extern from "mlrl/boosting/learner_classification.hpp" namespace "boosting"
 
         # Functions:
 
-        void useAutomaticPartitionSampling()
+        void useAutomaticPartitionSampling() except +
 
 
     cdef cppclass INoDefaultRuleMixin:
 
         # Functions:
 
-        void useNoDefaultRule()
+        void useNoDefaultRule() except +
 
 
     cdef cppclass IAutomaticDefaultRuleMixin:
 
         # Functions:
 
-        void useAutomaticDefaultRule()
+        void useAutomaticDefaultRule() except +
 
 
     cdef cppclass IDenseStatisticsMixin:
 
         # Functions:
 
-        void useDenseStatistics()
+        void useDenseStatistics() except +
 
 
     cdef cppclass ISparseStatisticsMixin:
 
         # Functions:
 
-        void useSparseStatistics()
+        void useSparseStatistics() except +
 
 
     cdef cppclass IAutomaticStatisticsMixin:
 
         # Functions:
 
-        void useAutomaticStatistics()
+        void useAutomaticStatistics() except +
 
 
     cdef cppclass INonDecomposableLogisticLossMixin:
 
         # Functions:
 
-        void useNonDecomposableLogisticLoss()
+        void useNonDecomposableLogisticLoss() except +
 
 
     cdef cppclass INonDecomposableSquaredHingeLossMixin:
 
         # Functions:
 
-        void useNonDecomposableSquaredHingeLoss()
+        void useNonDecomposableSquaredHingeLoss() except +
 
 
     cdef cppclass IDecomposableLogisticLossMixin:
 
         # Functions:
 
-        void useDecomposableLogisticLoss()
+        void useDecomposableLogisticLoss() except +
 
         
     cdef cppclass IDecomposableSquaredHingeLossMixin:
 
         # Functions:
 
-        void useDecomposableSquaredHingeLoss()
+        void useDecomposableSquaredHingeLoss() except +
 
 
     cdef cppclass INoLabelBinningMixin:
 
         # Functions:
 
-        void useNoLabelBinning()
+        void useNoLabelBinning() except +
 
 
     cdef cppclass IEqualWidthLabelBinningMixin:
 
         # Functions:
 
-        IEqualWidthLabelBinningConfig& useEqualWidthLabelBinning()
+        IEqualWidthLabelBinningConfig& useEqualWidthLabelBinning() except +
 
 
     cdef cppclass IAutomaticLabelBinningMixin:
 
         # Functions:
 
-        void useAutomaticLabelBinning()
+        void useAutomaticLabelBinning() except +
 
 
     cdef cppclass IIsotonicMarginalProbabilityCalibrationMixin:
 
         # Functions:
 
-        IIsotonicMarginalProbabilityCalibratorConfig& useIsotonicMarginalProbabilityCalibration()
+        IIsotonicMarginalProbabilityCalibratorConfig& useIsotonicMarginalProbabilityCalibration() except +
 
 
     cdef cppclass IIsotonicJointProbabilityCalibrationMixin:
 
         # Functions:
 
-        IIsotonicJointProbabilityCalibratorConfig& useIsotonicJointProbabilityCalibration()
+        IIsotonicJointProbabilityCalibratorConfig& useIsotonicJointProbabilityCalibration() except +
         
 
     cdef cppclass IOutputWiseProbabilityPredictorMixin:
 
         # Functions:
 
-        IOutputWiseProbabilityPredictorConfig& useOutputWiseProbabilityPredictor()
+        IOutputWiseProbabilityPredictorConfig& useOutputWiseProbabilityPredictor() except +
 
 
     cdef cppclass IMarginalizedProbabilityPredictorMixin:
 
         # Functions:
 
-        IMarginalizedProbabilityPredictorConfig& useMarginalizedProbabilityPredictor()
+        IMarginalizedProbabilityPredictorConfig& useMarginalizedProbabilityPredictor() except +
 
 
     cdef cppclass IAutomaticProbabilityPredictorMixin:
         
         # Functions:
 
-        void useAutomaticProbabilityPredictor()
+        void useAutomaticProbabilityPredictor() except +
 
 
     cdef cppclass IOutputWiseBinaryPredictorMixin:
 
         # Functions:
 
-        IOutputWiseBinaryPredictorConfig& useOutputWiseBinaryPredictor()
+        IOutputWiseBinaryPredictorConfig& useOutputWiseBinaryPredictor() except +
 
 
     cdef cppclass IExampleWiseBinaryPredictorMixin:
 
         # Functions:
 
-        IExampleWiseBinaryPredictorConfig& useExampleWiseBinaryPredictor()
+        IExampleWiseBinaryPredictorConfig& useExampleWiseBinaryPredictor() except +
 
 
     cdef cppclass IGfmBinaryPredictorMixin:
 
         # Functions:
 
-        IGfmBinaryPredictorConfig& useGfmBinaryPredictor()
+        IGfmBinaryPredictorConfig& useGfmBinaryPredictor() except +
 
 
     cdef cppclass IAutomaticBinaryPredictorMixin:
 
         # Functions:
 
-        void useAutomaticBinaryPredictor()
+        void useAutomaticBinaryPredictor() except +
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/prediction.pxd b/python/subprojects/boosting/mlrl/boosting/cython/prediction.pxd
index f322224..0524ed4 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/prediction.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/prediction.pxd
@@ -9,7 +9,7 @@ cdef extern from "mlrl/boosting/prediction/predictor_probability_output_wise.hpp
 
         bool isProbabilityCalibrationModelUsed() const
 
-        IOutputWiseProbabilityPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel)
+        IOutputWiseProbabilityPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel) except +
 
 
 cdef extern from "mlrl/boosting/prediction/predictor_probability_marginalized.hpp" namespace "boosting" nogil:
@@ -20,7 +20,7 @@ cdef extern from "mlrl/boosting/prediction/predictor_probability_marginalized.hp
 
         bool isProbabilityCalibrationModelUsed() const
 
-        IMarginalizedProbabilityPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel)
+        IMarginalizedProbabilityPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel) except +
 
 
 cdef extern from "mlrl/boosting/prediction/predictor_binary_example_wise.hpp" namespace "boosting" nogil:
@@ -31,11 +31,11 @@ cdef extern from "mlrl/boosting/prediction/predictor_binary_example_wise.hpp" na
 
         bool isBasedOnProbabilities() const
 
-        IExampleWiseBinaryPredictorConfig& setBasedOnProbabilities(bool basedOnProbabilities)
+        IExampleWiseBinaryPredictorConfig& setBasedOnProbabilities(bool basedOnProbabilities) except +
 
         bool isProbabilityCalibrationModelUsed() const
 
-        IExampleWiseBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel)
+        IExampleWiseBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel) except +
 
 
 cdef extern from "mlrl/boosting/prediction/predictor_binary_output_wise.hpp" namespace "boosting" nogil:
@@ -46,11 +46,11 @@ cdef extern from "mlrl/boosting/prediction/predictor_binary_output_wise.hpp" nam
 
         bool isBasedOnProbabilities() const
 
-        IOutputWiseBinaryPredictorConfig& setBasedOnProbabilities(bool basedOnProbabilities)
+        IOutputWiseBinaryPredictorConfig& setBasedOnProbabilities(bool basedOnProbabilities) except +
 
         bool isProbabilityCalibrationModelUsed() const
 
-        IExampleWiseBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel)
+        IExampleWiseBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel) except +
 
 
 cdef extern from "mlrl/boosting/prediction/predictor_binary_gfm.hpp" namespace "boosting" nogil:
@@ -61,7 +61,7 @@ cdef extern from "mlrl/boosting/prediction/predictor_binary_gfm.hpp" namespace "
 
         bool isProbabilityCalibrationModelUsed() const
 
-        IGfmBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel)
+        IGfmBinaryPredictorConfig& setUseProbabilityCalibrationModel(bool useProbabilityCalibrationModel) except +
 
 
 cdef class OutputWiseProbabilityPredictorConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/feature_info.pxd b/python/subprojects/common/mlrl/common/cython/feature_info.pxd
index 1051742..0884b7a 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_info.pxd
+++ b/python/subprojects/common/mlrl/common/cython/feature_info.pxd
@@ -15,11 +15,11 @@ cdef extern from "mlrl/common/input/feature_info_equal.hpp" nogil:
         pass
 
 
-    unique_ptr[IEqualFeatureInfo] createOrdinalFeatureInfo()
+    unique_ptr[IEqualFeatureInfo] createOrdinalFeatureInfo() except +
 
-    unique_ptr[IEqualFeatureInfo] createNominalFeatureInfo()
+    unique_ptr[IEqualFeatureInfo] createNominalFeatureInfo() except +
 
-    unique_ptr[IEqualFeatureInfo] createNumericalFeatureInfo()
+    unique_ptr[IEqualFeatureInfo] createNumericalFeatureInfo() except +
 
 
 cdef extern from "mlrl/common/input/feature_info_mixed.hpp" nogil:
@@ -28,14 +28,14 @@ cdef extern from "mlrl/common/input/feature_info_mixed.hpp" nogil:
 
         # Functions:
 
-        void setNumerical(uint32 featureIndex)
+        void setNumerical(uint32 featureIndex) except +
 
-        void setOrdinal(uint32 featureIndex)
+        void setOrdinal(uint32 featureIndex) except +
 
-        void setNominal(uint32 featureIndex)
+        void setNominal(uint32 featureIndex) except +
 
 
-    unique_ptr[IMixedFeatureInfo] createMixedFeatureInfo(uint32 numFeatures)
+    unique_ptr[IMixedFeatureInfo] createMixedFeatureInfo(uint32 numFeatures) except +
 
 
 cdef class FeatureInfo:
diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pxd b/python/subprojects/common/mlrl/common/cython/feature_matrix.pxd
index 494b707..67fb3ce 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pxd
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pxd
@@ -30,7 +30,7 @@ cdef extern from "mlrl/common/input/feature_matrix_fortran_contiguous.hpp" nogil
 
 
     unique_ptr[IFortranContiguousFeatureMatrix] createFortranContiguousFeatureMatrix(const float32* array,
-                                                                                     uint32 numRows, uint32 numCols,)
+                                                                                     uint32 numRows, uint32 numCols) except +
 
 
 cdef extern from "mlrl/common/input/feature_matrix_csc.hpp" nogil:
@@ -40,7 +40,7 @@ cdef extern from "mlrl/common/input/feature_matrix_csc.hpp" nogil:
 
 
     unique_ptr[ICscFeatureMatrix] createCscFeatureMatrix(const float32* values, uint32* indices, uint32* indptr,
-                                                         uint32 numRows, uint32 numCols, float32 sparseValue)
+                                                         uint32 numRows, uint32 numCols, float32 sparseValue) except +
 
 
 cdef extern from "mlrl/common/input/feature_matrix_row_wise.hpp" nogil:
@@ -56,7 +56,7 @@ cdef extern from "mlrl/common/input/feature_matrix_c_contiguous.hpp" nogil:
 
 
     unique_ptr[ICContiguousFeatureMatrix] createCContiguousFeatureMatrix(const float32* array, uint32 numRows,
-                                                                         uint32 numCols)
+                                                                         uint32 numCols) except +
 
 
 cdef extern from "mlrl/common/input/feature_matrix_csr.hpp" nogil:
@@ -66,7 +66,7 @@ cdef extern from "mlrl/common/input/feature_matrix_csr.hpp" nogil:
 
 
     unique_ptr[ICsrFeatureMatrix] createCsrFeatureMatrix(const float32* values, uint32* indices, uint32* indptr,
-                                                         uint32 numRows, uint32 numCols, float32 sparseValue)
+                                                         uint32 numRows, uint32 numCols, float32 sparseValue) except +
 
 
 cdef class FeatureMatrix:
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pxd b/python/subprojects/common/mlrl/common/cython/label_matrix.pxd
index 4a24fb3..e84293c 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pxd
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pxd
@@ -19,7 +19,8 @@ cdef extern from "mlrl/common/input/label_matrix_c_contiguous.hpp" nogil:
         pass
 
 
-    unique_ptr[ICContiguousLabelMatrix] createCContiguousLabelMatrix(const uint8* array, uint32 numRows, uint32 numCols)
+    unique_ptr[ICContiguousLabelMatrix] createCContiguousLabelMatrix(const uint8* array, uint32 numRows,
+                                                                     uint32 numCols) except +
 
 
 cdef extern from "mlrl/common/input/label_matrix_csr.hpp" nogil:
@@ -28,7 +29,8 @@ cdef extern from "mlrl/common/input/label_matrix_csr.hpp" nogil:
         pass
 
 
-    unique_ptr[ICsrLabelMatrix] createCsrLabelMatrix(uint32* indices, uint32* indptr, uint32 numRows, uint32 numCols)
+    unique_ptr[ICsrLabelMatrix] createCsrLabelMatrix(uint32* indices, uint32* indptr, uint32 numRows,
+                                                     uint32 numCols) except +
 
 
 cdef class RowWiseLabelMatrix(OutputMatrix):
diff --git a/python/subprojects/common/mlrl/common/cython/learner.pxd b/python/subprojects/common/mlrl/common/cython/learner.pxd
index 395fac7..4ee72ce 100644
--- a/python/subprojects/common/mlrl/common/cython/learner.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner.pxd
@@ -40,266 +40,266 @@ cdef extern from "mlrl/common/learner.hpp" nogil:
 
         # Functions:
 
-        IRNGConfig& useRNG()
+        IRNGConfig& useRNG() except +
 
 
     cdef cppclass ISequentialRuleModelAssemblageMixin:
 
         # Functions:
 
-        void useSequentialRuleModelAssemblage()
+        void useSequentialRuleModelAssemblage() except +
 
 
     cdef cppclass IDefaultRuleMixin:
 
         # Functions:
 
-        void useDefaultRule()
+        void useDefaultRule() except +
 
 
     cdef cppclass IGreedyTopDownRuleInductionMixin:
 
         # Functions:
 
-        IGreedyTopDownRuleInductionConfig& useGreedyTopDownRuleInduction()
+        IGreedyTopDownRuleInductionConfig& useGreedyTopDownRuleInduction() except +
 
         
     cdef cppclass IBeamSearchTopDownRuleInductionMixin:
 
         # Functions:
 
-        IBeamSearchTopDownRuleInductionConfig& useBeamSearchTopDownRuleInduction()
+        IBeamSearchTopDownRuleInductionConfig& useBeamSearchTopDownRuleInduction() except +
 
 
     cdef cppclass INoPostProcessorMixin:
 
         # Functions:
 
-        void useNoPostProcessor()
+        void useNoPostProcessor() except +
 
 
     cdef cppclass INoFeatureBinningMixin:
 
         # Functions:
 
-        void useNoFeatureBinning()
+        void useNoFeatureBinning() except +
         
 
     cdef cppclass IEqualWidthFeatureBinningMixin:
 
         # Functions:
 
-        IEqualWidthFeatureBinningConfig& useEqualWidthFeatureBinning()
+        IEqualWidthFeatureBinningConfig& useEqualWidthFeatureBinning() except +
 
 
     cdef cppclass IEqualFrequencyFeatureBinningMixin:
 
         # Functions:
 
-        IEqualFrequencyFeatureBinningConfig& useEqualFrequencyFeatureBinning()
+        IEqualFrequencyFeatureBinningConfig& useEqualFrequencyFeatureBinning() except +
 
 
     cdef cppclass INoOutputSamplingMixin:
 
         # Functions:
 
-        void useNoOutputSampling()
+        void useNoOutputSampling() except +
 
 
     cdef cppclass IRoundRobinOutputSamplingMixin:
 
         # Functions:
 
-        void useRoundRobinOutputSampling()
+        void useRoundRobinOutputSampling() except +
     
     
     cdef cppclass IOutputSamplingWithoutReplacementMixin:
 
         # Functions:
 
-        IOutputSamplingWithoutReplacementConfig& useOutputSamplingWithoutReplacement()
+        IOutputSamplingWithoutReplacementConfig& useOutputSamplingWithoutReplacement() except +
 
 
     cdef cppclass INoInstanceSamplingMixin:
 
         # Functions:
 
-        void useNoInstanceSampling()
+        void useNoInstanceSampling() except +
 
 
     cdef cppclass IInstanceSamplingWithoutReplacementMixin:
 
         # Functions:
 
-        IInstanceSamplingWithoutReplacementConfig& useInstanceSamplingWithoutReplacement()
+        IInstanceSamplingWithoutReplacementConfig& useInstanceSamplingWithoutReplacement() except +
 
 
     cdef cppclass IInstanceSamplingWithReplacementMixin:
 
         # Functions:
 
-        IInstanceSamplingWithReplacementConfig& useInstanceSamplingWithReplacement()
+        IInstanceSamplingWithReplacementConfig& useInstanceSamplingWithReplacement() except +
 
 
     cdef cppclass INoFeatureSamplingMixin:
 
         # Functions:
 
-        void useNoFeatureSampling()
+        void useNoFeatureSampling() except +
 
 
     cdef cppclass IFeatureSamplingWithoutReplacementMixin:
 
         # Functions:
 
-        IFeatureSamplingWithoutReplacementConfig& useFeatureSamplingWithoutReplacement()
+        IFeatureSamplingWithoutReplacementConfig& useFeatureSamplingWithoutReplacement() except +
 
 
     cdef cppclass INoPartitionSamplingMixin:
 
         # Functions:
 
-        void useNoPartitionSampling()
+        void useNoPartitionSampling() except +
 
 
     cdef cppclass IRandomBiPartitionSamplingMixin:
 
         # Functions:
 
-        IRandomBiPartitionSamplingConfig& useRandomBiPartitionSampling()
+        IRandomBiPartitionSamplingConfig& useRandomBiPartitionSampling() except +
 
 
     cdef cppclass INoRulePruningMixin:
 
         # Functions:
 
-        void useNoRulePruning()
+        void useNoRulePruning() except +
 
 
     cdef cppclass IIrepRulePruningMixin:
 
         # Functions:
 
-        void useIrepRulePruning()
+        void useIrepRulePruning() except +
 
 
     cdef cppclass INoParallelRuleRefinementMixin:
 
         # Functions:
 
-        void useNoParallelRuleRefinement()
+        void useNoParallelRuleRefinement() except +
 
 
     cdef cppclass IParallelRuleRefinementMixin:
 
         # Functions:
 
-        IManualMultiThreadingConfig& useParallelRuleRefinement()
+        IManualMultiThreadingConfig& useParallelRuleRefinement() except +
 
     
     cdef cppclass INoParallelStatisticUpdateMixin:
 
         # Functions:
 
-        void useNoParallelStatisticUpdate()
+        void useNoParallelStatisticUpdate() except +
 
 
     cdef cppclass IParallelStatisticUpdateMixin:
 
         # Functions:
 
-        IManualMultiThreadingConfig& useParallelStatisticUpdate()
+        IManualMultiThreadingConfig& useParallelStatisticUpdate() except +
 
 
     cdef cppclass INoParallelPredictionMixin:
 
         # Functions:
 
-        void useNoParallelPrediction()
+        void useNoParallelPrediction() except +
 
         
     cdef cppclass IParallelPredictionMixin:
 
         # Functions:
 
-        IManualMultiThreadingConfig& useParallelPrediction()
+        IManualMultiThreadingConfig& useParallelPrediction() except +
 
 
     cdef cppclass INoSizeStoppingCriterionMixin:
 
         # Functions:
 
-        void useNoSizeStoppingCriterion()
+        void useNoSizeStoppingCriterion() except +
 
 
     cdef cppclass ISizeStoppingCriterionMixin:
 
         # Functions:
 
-        ISizeStoppingCriterionConfig& useSizeStoppingCriterion()
+        ISizeStoppingCriterionConfig& useSizeStoppingCriterion() except +
 
 
     cdef cppclass INoTimeStoppingCriterionMixin:
 
         # Functions:
 
-        void useNoTimeStoppingCriterion()
+        void useNoTimeStoppingCriterion() except +
 
 
     cdef cppclass ITimeStoppingCriterionMixin:
 
         # Functions:
 
-        ITimeStoppingCriterionConfig& useTimeStoppingCriterion()
+        ITimeStoppingCriterionConfig& useTimeStoppingCriterion() except +
 
 
     cdef cppclass IPrePruningMixin:
 
         # Functions:
 
-        IPrePruningConfig& useGlobalPrePruning()
+        IPrePruningConfig& useGlobalPrePruning() except +
 
 
     cdef cppclass INoGlobalPruningMixin:
 
         # Functions:
 
-        void useNoGlobalPruning()
+        void useNoGlobalPruning() except +
 
 
     cdef cppclass IPostPruningMixin:
 
         # Functions:
 
-        IPostPruningConfig& useGlobalPostPruning()
+        IPostPruningConfig& useGlobalPostPruning() except +
 
 
     cdef cppclass INoSequentialPostOptimizationMixin:
 
         # Functions:
 
-        void useNoSequentialPostOptimization()
+        void useNoSequentialPostOptimization() except +
 
 
     cdef cppclass ISequentialPostOptimizationMixin:
 
         # Functions:
 
-        ISequentialPostOptimizationConfig& useSequentialPostOptimization()
+        ISequentialPostOptimizationConfig& useSequentialPostOptimization() except +
 
 
     cdef cppclass INoMarginalProbabilityCalibrationMixin:
 
         # Functions:
 
-        void useNoMarginalProbabilityCalibration()
+        void useNoMarginalProbabilityCalibration() except +
 
 
     cdef cppclass INoJointProbabilityCalibrationMixin:
 
         # Functions:
 
-        void useNoJointProbabilityCalibration()
+        void useNoJointProbabilityCalibration() except +
 
 
 cdef class TrainingResult:
diff --git a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
index 3db73ee..441e015 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_classification.pxd
@@ -27,13 +27,13 @@ cdef extern from "mlrl/common/learner_classification.hpp" nogil:
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
                                         const IRowWiseLabelMatrix& labelMatrix) except +
 
-        bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
+        bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) except +
 
         unique_ptr[IScorePredictor] createScorePredictor(
             const IRowWiseFeatureMatrix& featureMatrix, const IRuleModel& ruleModel,
             const IOutputSpaceInfo& outputSpaceInfo, uint32 numLabels) except +
 
-        bool canPredictProbabilities(const IRowWiseFeatureMatrix& featureMatrix, uint32 numLabels) const
+        bool canPredictProbabilities(const IRowWiseFeatureMatrix& featureMatrix, uint32 numLabels) except +
 
         unique_ptr[IProbabilityPredictor] createProbabilityPredictor(
             const IRowWiseFeatureMatrix& featureMatrix, const IRuleModel& ruleModel,
@@ -41,7 +41,7 @@ cdef extern from "mlrl/common/learner_classification.hpp" nogil:
             const IMarginalProbabilityCalibrationModel& marginalProbabilityCalibrationModel,
             const IJointProbabilityCalibrationModel& jointProbabilityCalibrationModel, uint32 numLabels) except +
 
-        bool canPredictBinary(const IRowWiseFeatureMatrix& featureMatrix, uint32 numLabels) const
+        bool canPredictBinary(const IRowWiseFeatureMatrix& featureMatrix, uint32 numLabels) except +
 
         unique_ptr[IBinaryPredictor] createBinaryPredictor(
             const IRowWiseFeatureMatrix& featureMatrix, const IRuleModel& ruleModel,
@@ -60,28 +60,28 @@ cdef extern from "mlrl/common/learner_classification.hpp" nogil:
 
         # Functions:
 
-        IOutputWiseStratifiedInstanceSamplingConfig& useOutputWiseStratifiedInstanceSampling()
+        IOutputWiseStratifiedInstanceSamplingConfig& useOutputWiseStratifiedInstanceSampling() except +
 
 
     cdef cppclass IExampleWiseStratifiedInstanceSamplingMixin:
 
         # Functions:
 
-        IExampleWiseStratifiedInstanceSamplingConfig& useExampleWiseStratifiedInstanceSampling()
+        IExampleWiseStratifiedInstanceSamplingConfig& useExampleWiseStratifiedInstanceSampling() except +
 
 
     cdef cppclass IOutputWiseStratifiedBiPartitionSamplingMixin:
 
         # Functions:
 
-        IOutputWiseStratifiedBiPartitionSamplingConfig& useOutputWiseStratifiedBiPartitionSampling()
+        IOutputWiseStratifiedBiPartitionSamplingConfig& useOutputWiseStratifiedBiPartitionSampling() except +
 
 
     cdef cppclass IExampleWiseStratifiedBiPartitionSamplingMixin:
 
         # Functions:
 
-        IExampleWiseStratifiedBiPartitionSamplingConfig& useExampleWiseStratifiedBiPartitionSampling()
+        IExampleWiseStratifiedBiPartitionSamplingConfig& useExampleWiseStratifiedBiPartitionSampling() except +
 
 
 cdef class ClassificationRuleLearner:
diff --git a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
index 707916d..3b0fd00 100644
--- a/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
+++ b/python/subprojects/common/mlrl/common/cython/learner_regression.pxd
@@ -20,7 +20,7 @@ cdef extern from "mlrl/common/learner_regression.hpp" nogil:
         unique_ptr[ITrainingResult] fit(const IFeatureInfo& featureInfo, const IColumnWiseFeatureMatrix& featureMatrix,
                                         const IRowWiseRegressionMatrix& regressionMatrix) except +
 
-        bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) const
+        bool canPredictScores(const IRowWiseFeatureMatrix&  featureMatrix, uint32 numLabels) except +
 
         unique_ptr[IScorePredictor] createScorePredictor(
             const IRowWiseFeatureMatrix& featureMatrix, const IRuleModel& ruleModel,
diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pxd b/python/subprojects/common/mlrl/common/cython/output_space_info.pxd
index 720355a..a7462f2 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pxd
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pxd
@@ -16,7 +16,7 @@ cdef extern from "mlrl/common/prediction/output_space_info_no.hpp" nogil:
         pass
 
 
-    unique_ptr[INoOutputSpaceInfo] createNoOutputSpaceInfo()
+    unique_ptr[INoOutputSpaceInfo] createNoOutputSpaceInfo() except +
 
 
 cdef extern from "mlrl/common/input/label_vector.hpp" nogil:
@@ -29,7 +29,7 @@ cdef extern from "mlrl/common/input/label_vector.hpp" nogil:
 
         # Constructors:
 
-        LabelVector(uint32 numElements)
+        LabelVector(uint32 numElements) except +
 
         # Functions:
 
@@ -49,12 +49,12 @@ cdef extern from "mlrl/common/prediction/label_vector_set.hpp" nogil:
 
         # Functions:
 
-        void addLabelVector(unique_ptr[LabelVector] labelVectorPtr, uint32 frequency)
+        void addLabelVector(unique_ptr[LabelVector] labelVectorPtr, uint32 frequency) except +
 
         void visit(LabelVectorVisitor) const
 
 
-    unique_ptr[ILabelVectorSet] createLabelVectorSet()
+    unique_ptr[ILabelVectorSet] createLabelVectorSet() except +
 
 
 ctypedef INoOutputSpaceInfo* NoOutputSpaceInfoPtr
diff --git a/python/subprojects/common/mlrl/common/cython/probability_calibration.pxd b/python/subprojects/common/mlrl/common/cython/probability_calibration.pxd
index da0d586..c274e77 100644
--- a/python/subprojects/common/mlrl/common/cython/probability_calibration.pxd
+++ b/python/subprojects/common/mlrl/common/cython/probability_calibration.pxd
@@ -24,7 +24,7 @@ cdef extern from "mlrl/common/prediction/probability_calibration_no.hpp" nogil:
                                                  IJointProbabilityCalibrationModel):
         pass
 
-    unique_ptr[INoProbabilityCalibrationModel] createNoProbabilityCalibrationModel()
+    unique_ptr[INoProbabilityCalibrationModel] createNoProbabilityCalibrationModel() except +
 
 
 ctypedef INoProbabilityCalibrationModel* NoProbabilityCalibrationModelPtr
@@ -39,12 +39,12 @@ cdef extern from "mlrl/common/prediction/probability_calibration_isotonic.hpp" n
 
         uint32 getNumBinLists() const
 
-        void addBin(uint32 listIndex, float64 threshold, float64 probability)
+        void addBin(uint32 listIndex, float64 threshold, float64 probability) except +
 
         void visit(BinVisitor) const
 
 
-    unique_ptr[IIsotonicProbabilityCalibrationModel] createIsotonicProbabilityCalibrationModel(uint32 numLists)
+    unique_ptr[IIsotonicProbabilityCalibrationModel] createIsotonicProbabilityCalibrationModel(uint32 numLists) except +
 
 
 ctypedef IIsotonicProbabilityCalibrationModel* IsotonicProbabilityCalibrationModelPtr
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pxd b/python/subprojects/common/mlrl/common/cython/regression_matrix.pxd
index 16477a8..4e9e876 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pxd
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pxd
@@ -17,7 +17,7 @@ cdef extern from "mlrl/common/input/regression_matrix_c_contiguous.hpp" nogil:
 
 
     unique_ptr[ICContiguousRegressionMatrix] createCContiguousRegressionMatrix(const float32* array, uint32 numRows,
-                                                                               uint32 numCols)
+                                                                               uint32 numCols) except +
 
 
 cdef extern from "mlrl/common/input/regression_matrix_csr.hpp" nogil:
@@ -27,7 +27,7 @@ cdef extern from "mlrl/common/input/regression_matrix_csr.hpp" nogil:
 
 
     unique_ptr[ICsrRegressionMatrix] createCsrRegressionMatrix(float32* values, uint32* indices, uint32* indptr,
-                                                               uint32 numRows, uint32 numCols)
+                                                               uint32 numRows, uint32 numCols) except +
 
 
 cdef class RowWiseRegressionMatrix(OutputMatrix):
diff --git a/python/subprojects/common/mlrl/common/cython/rule_model.pxd b/python/subprojects/common/mlrl/common/cython/rule_model.pxd
index c6cc415..a965dd6 100644
--- a/python/subprojects/common/mlrl/common/cython/rule_model.pxd
+++ b/python/subprojects/common/mlrl/common/cython/rule_model.pxd
@@ -41,7 +41,8 @@ cdef extern from "mlrl/common/model/body_conjunctive.hpp" nogil:
 
         # Constructors:
 
-        ConjunctiveBodyImpl(uint32 numNumericalLeq, uint32 numNumericalGr, uint32 numNominalEq, uint32 numNominalNeq)
+        ConjunctiveBodyImpl(uint32 numNumericalLeq, uint32 numNumericalGr, uint32 numNominalEq,
+                            uint32 numNominalNeq) except +
 
         # Functions:
 
@@ -182,9 +183,9 @@ cdef extern from "mlrl/common/model/rule_list.hpp" nogil:
 
         # Functions:
 
-        void addDefaultRule(unique_ptr[IHead] headPtr)
+        void addDefaultRule(unique_ptr[IHead] headPtr) except +
 
-        void addRule(unique_ptr[IBody] bodyPtr, unique_ptr[IHead] headPtr)
+        void addRule(unique_ptr[IBody] bodyPtr, unique_ptr[IHead] headPtr) except +
 
         bool containsDefaultRule() const
 
@@ -197,7 +198,7 @@ cdef extern from "mlrl/common/model/rule_list.hpp" nogil:
                        CompleteHeadVisitor completeHeadVisitor, PartialHeadVisitor partialHeadVisitor) const
 
 
-    unique_ptr[IRuleList] createRuleList(bool defaultRuleTakesPrecedence)
+    unique_ptr[IRuleList] createRuleList(bool defaultRuleTakesPrecedence) except +
 
 
 ctypedef IRuleList* RuleListPtr
diff --git a/python/subprojects/seco/mlrl/seco/cython/learner.pxd b/python/subprojects/seco/mlrl/seco/cython/learner.pxd
index fe60951..cdb90d0 100644
--- a/python/subprojects/seco/mlrl/seco/cython/learner.pxd
+++ b/python/subprojects/seco/mlrl/seco/cython/learner.pxd
@@ -9,151 +9,151 @@ cdef extern from "mlrl/seco/learner.hpp" namespace "seco" nogil:
 
         # Functions:
 
-        void useNoCoverageStoppingCriterion()
+        void useNoCoverageStoppingCriterion() except +
 
 
     cdef cppclass ICoverageStoppingCriterionMixin:
 
         # Functions:
 
-        ICoverageStoppingCriterionConfig& useCoverageStoppingCriterion()
+        ICoverageStoppingCriterionConfig& useCoverageStoppingCriterion() except +
 
 
     cdef cppclass ISingleOutputHeadMixin:
 
         # Functions:
 
-        void useSingleOutputHeads()
+        void useSingleOutputHeads() except +
 
 
     cdef cppclass IPartialHeadMixin:
 
         # Functions:
 
-        void usePartialHeads()
+        void usePartialHeads() except +
 
 
     cdef cppclass INoLiftFunctionMixin:
 
         # Functions:
 
-        void useNoLiftFunction()
+        void useNoLiftFunction() except +
 
 
     cdef cppclass IPeakLiftFunctionMixin:
 
         # Functions:
 
-        IPeakLiftFunctionConfig& usePeakLiftFunction()
+        IPeakLiftFunctionConfig& usePeakLiftFunction() except +
 
 
     cdef cppclass IKlnLiftFunctionMixin:
 
         # Functions:
 
-        IKlnLiftFunctionConfig& useKlnLiftFunction()
+        IKlnLiftFunctionConfig& useKlnLiftFunction() except +
 
 
     cdef cppclass IAccuracyHeuristicMixin:
 
         # Functions:
 
-        void useAccuracyHeuristic()
+        void useAccuracyHeuristic() except +
 
 
     cdef cppclass IAccuracyPruningHeuristicMixin:
 
         # Functions:
 
-        void useAccuracyPruningHeuristic()
+        void useAccuracyPruningHeuristic() except +
 
 
     cdef cppclass IFMeasureHeuristicMixin:
 
         # Functions:
 
-        IFMeasureConfig& useFMeasureHeuristic()
+        IFMeasureConfig& useFMeasureHeuristic() except +
 
 
     cdef cppclass IFMeasurePruningHeuristicMixin:
 
         # Functions
 
-        IFMeasureConfig& useFMeasurePruningHeuristic()
+        IFMeasureConfig& useFMeasurePruningHeuristic() except +
 
 
     cdef cppclass IMEstimateHeuristicMixin:
 
         # Functions:
 
-        IMEstimateConfig& useMEstimateHeuristic()
+        IMEstimateConfig& useMEstimateHeuristic() except +
 
 
     cdef cppclass IMEstimatePruningHeuristicMixin:
 
         # Functions:
 
-        IMEstimateConfig& useMEstimatePruningHeuristic()
+        IMEstimateConfig& useMEstimatePruningHeuristic() except +
 
 
     cdef cppclass ILaplaceHeuristicMixin:
 
         # Functions:
 
-        void useLaplaceHeuristic()
+        void useLaplaceHeuristic() except +
 
 
     cdef cppclass ILaplacePruningHeuristicMixin:
 
         # Functions:
 
-        void useLaplacePruningHeuristic()
+        void useLaplacePruningHeuristic() except +
 
 
     cdef cppclass IPrecisionHeuristicMixin:
 
         # Functions:
 
-        void usePrecisionHeuristic()
+        void usePrecisionHeuristic() except +
 
 
     cdef cppclass IPrecisionPruningHeuristicMixin:
 
         # Functions:
 
-        void usePrecisionPruningHeuristic()
+        void usePrecisionPruningHeuristic() except +
 
 
     cdef cppclass IRecallHeuristicMixin:
 
         # Functions:
 
-        void useRecallHeuristic()
+        void useRecallHeuristic() except +
 
 
     cdef cppclass IRecallPruningHeuristicMixin:
 
         # Functions:
 
-        void useRecallPruningHeuristic()
+        void useRecallPruningHeuristic() except +
 
 
     cdef cppclass IWraHeuristicMixin:
 
         # Functions:
 
-        void useWraHeuristic()
+        void useWraHeuristic() except +
 
 
     cdef cppclass IWraPruningHeuristicMixin:
 
         # Functions:
 
-        void useWraPruningHeuristic()
+        void useWraPruningHeuristic() except +
 
 
     cdef cppclass IOutputWiseBinaryPredictorMixin:
 
         # Functions:
 
-        void useOutputWiseBinaryPredictor()
+        void useOutputWiseBinaryPredictor() except +
diff --git a/python/subprojects/seco/mlrl/seco/cython/learner_seco.pxd b/python/subprojects/seco/mlrl/seco/cython/learner_seco.pxd
index 6b79571..1346f28 100644
--- a/python/subprojects/seco/mlrl/seco/cython/learner_seco.pxd
+++ b/python/subprojects/seco/mlrl/seco/cython/learner_seco.pxd
@@ -90,10 +90,10 @@ cdef extern from "mlrl/seco/learner_seco_classifier.hpp" namespace "seco" nogil:
         pass
 
 
-    unique_ptr[ISeCoClassifierConfig] createSeCoClassifierConfig()
+    unique_ptr[ISeCoClassifierConfig] createSeCoClassifierConfig() except +
 
 
-    unique_ptr[ISeCoClassifier] createSeCoClassifier(unique_ptr[ISeCoClassifierConfig] configPtr)
+    unique_ptr[ISeCoClassifier] createSeCoClassifier(unique_ptr[ISeCoClassifierConfig] configPtr) except +
 
 
 cdef class SeCoClassifierConfig(RuleLearnerConfig):
-- 
2.43.0


From e0ad670370b1b24038a2803558cbcb8733104118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 34/41] fix: do not consider conditions to be satisfied by
 missing feature values when making predictions

---
 .../src/mlrl/common/model/body_conjunctive.cpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..9ea7a6e 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        // As it is the case during training, conditions are never satisfied by missing feature values...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +43,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        // As it is the case during training, conditions are never satisfied by missing feature values...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From 1982547283405dd3986c10adff524a3556585bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 35/41] fix: do not subtract examples with missing values
 repeatedly when nominal features are filtered

---
 .../src/mlrl/common/input/feature_vector_decorator_nominal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
index 9a9aac2..4f9a704 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
@@ -26,6 +26,9 @@ static inline std::unique_ptr<IFeatureVector> createFilteredNominalFeatureVector
             filteredDecoratorPtr = std::make_unique<Decorator>(view);
         }
 
+        // Examples with missing feature values are not covered anymore...
+        filteredDecoratorPtr->getView().secondView.clear();
+
         // Filter the indices of examples not associated with the majority value...
         const NominalFeatureVector& featureVector = view.getView().firstView;
         NominalFeatureVector::value_const_iterator valueIterator = featureVector.values;
-- 
2.43.0


From 6cedbab37df7b5f65cb7f81ef8c2858140725245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 36/41] fix: sort the partial prediction of the default rule
 before it is applied

---
 .../src/mlrl/common/rule_induction/rule_induction_common.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
index 0be83e5..03f961a 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
@@ -89,6 +89,7 @@ class AbstractRuleInduction : public IRuleInduction {
             std::unique_ptr<IEvaluatedPrediction> defaultPredictionPtr;
             ScoreProcessor scoreProcessor(defaultPredictionPtr);
             scoreProcessor.processScores(scoreVector);
+            defaultPredictionPtr->sort();
 
             std::unique_ptr<IStatisticsUpdate> statisticsUpdatePtr =
               defaultPredictionPtr->createStatisticsUpdate(statistics);
-- 
2.43.0


From 0ffc66f835e47ef216dc9aff727a7a02de34050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 37/41] fix: treat explicitly stored sparse values of nominal
 and ordinal features like other sparse values

---
 .../src/mlrl/common/input/feature_type_nominal.cpp | 10 ++++++++--
 .../common/input/feature_type_nominal_common.hpp   | 14 ++++++++++++++
 .../src/mlrl/common/input/feature_type_ordinal.cpp | 10 ++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal.cpp
index 5bfa9bf..249b7be 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal.cpp
@@ -108,15 +108,21 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
     uint32 numElements = valuesEnd - valuesBegin;
     std::unordered_map<int32, Tuple<uint32>> mapping;
     uint32 numExamples = createMapping(valuesBegin, numElements, mapping);
-    uint32 numValues = static_cast<uint32>(mapping.size());
+    int32 sparseValue = static_cast<int32>(featureMatrix.sparseValue);
     bool sparse = numElements < featureMatrix.numRows;
 
+    if (sparse && mapping.size() > 1) {
+        numExamples -= removeSparseValue(sparseValue, mapping);
+    }
+
+    uint32 numValues = static_cast<uint32>(mapping.size());
+
     if (sparse) {
         numValues++;
     }
 
     return createFeatureVectorInternally(indexIterator, valuesBegin, numElements, mapping, numValues, numExamples,
-                                         sparse, static_cast<int32>(featureMatrix.sparseValue));
+                                         sparse, sparseValue);
 }
 
 std::unique_ptr<IFeatureVector> NominalFeatureType::createFeatureVector(
diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal_common.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal_common.hpp
index b17708f..846b653 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal_common.hpp
@@ -38,6 +38,20 @@ static inline uint32 createMapping(ValueIterator valueIterator, uint32 numElemen
     return numExamples;
 }
 
+static inline uint32 removeSparseValue(int32 sparseValue, std::unordered_map<int32, Tuple<uint32>>& mapping) {
+    // Examples for which the sparse value is stored explicitly must be treated like those with sparse values...
+    auto it = mapping.find(sparseValue);
+    uint32 numExamples = 0;
+
+    if (it != mapping.end()) {
+        auto& entry = *it;
+        numExamples = entry.second.second;
+        mapping.erase(it);
+    }
+
+    return numExamples;
+}
+
 static inline int32 getMajorityValue(const std::unordered_map<int32, Tuple<uint32>>& mapping) {
     auto it = mapping.cbegin();
     auto& firstEntry = *it;
diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_type_ordinal.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_type_ordinal.cpp
index b720acd..63e8b2c 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_type_ordinal.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_type_ordinal.cpp
@@ -121,15 +121,21 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
     uint32 numElements = valuesEnd - valuesBegin;
     std::unordered_map<int32, Tuple<uint32>> mapping;
     uint32 numExamples = createMapping(valuesBegin, numElements, mapping);
-    uint32 numValues = static_cast<uint32>(mapping.size());
+    int32 sparseValue = static_cast<int32>(featureMatrix.sparseValue);
     bool sparse = numElements < featureMatrix.numRows;
 
+    if (sparse && mapping.size() > 1) {
+        numExamples -= removeSparseValue(sparseValue, mapping);
+    }
+
+    uint32 numValues = static_cast<uint32>(mapping.size());
+
     if (sparse) {
         numValues++;
     }
 
     return createFeatureVectorInternally(indexIterator, valuesBegin, numElements, mapping, numValues, numExamples,
-                                         sparse, static_cast<int32>(featureMatrix.sparseValue));
+                                         sparse, sparseValue);
 }
 
 std::unique_ptr<IFeatureVector> OrdinalFeatureType::createFeatureVector(
-- 
2.43.0


From 8fdf568aa02985969a806c438aff589817c9057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 38/41] fix: take all uncovered correct labels into account in
 the accuracy heuristic

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From c18ad77da93334b0176dab4a288da6a48a713730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 39/41] fix: let the peak lift function decrease monotonously
 after the peak

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..677c8d8 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i <= numLabels - peakLabel; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From 4eeadc1363ba984939c63e1054cbe016f59a3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 40/41] fix: do not count examples with missing values as
 covered when enforcing the minimum coverage

---
 .../common/input/feature_based_search.hpp     | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..c521bb7 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,31 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+/**
+ * Calculates and returns the number of examples with non-zero weights that may be covered by a refinement, i.e., those
+ * that do not have a missing feature value.
+ *
+ * @param statisticsSubset              A reference to an object of type `IResettableStatisticsSubset` that provides
+ *                                      access to the weights of individual examples
+ * @param missingFeatureVector          A reference to an object of type `MissingFeatureVector` that provides access to
+ *                                      the indices of training examples with missing feature values
+ * @param numExamplesWithNonZeroWeights The total number of examples with non-zero weights
+ * @return                              The number of examples with non-zero weights that do not have a missing value
+ */
+static inline uint32 getNumCoverableExamples(const IResettableStatisticsSubset& statisticsSubset,
+                                             const MissingFeatureVector& missingFeatureVector,
+                                             uint32 numExamplesWithNonZeroWeights) {
+    uint32 numCoverableExamples = numExamplesWithNonZeroWeights;
+
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (statisticsSubset.hasNonZeroWeight(*it)) {
+            numCoverableExamples--;
+        }
+    }
+
+    return numCoverableExamples;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,8 +101,10 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    uint32 numCoverableExamples =
+      getNumCoverableExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
-                                           numExamplesWithNonZeroWeights, minCoverage, refinement);
+                                           numCoverableExamples, minCoverage, refinement);
 }
 
 /**
@@ -111,7 +138,9 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
+    uint32 numCoverableExamples =
+      getNumCoverableExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numCoverableExamples,
                                          minCoverage, refinement);
 }
 
@@ -145,7 +174,9 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
+    uint32 numCoverableExamples =
+      getNumCoverableExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numCoverableExamples,
                                         minCoverage, refinement);
 }
 
@@ -180,7 +211,9 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
+    uint32 numCoverableExamples =
+      getNumCoverableExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numCoverableExamples,
                                          minCoverage, refinement);
 }
 
@@ -215,6 +248,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
+    uint32 numCoverableExamples =
+      getNumCoverableExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numCoverableExamples,
                                         minCoverage, refinement);
 }
-- 
2.43.0


From babd57daa8f7eb8b68c109d021ce374a948f22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 41/41] fix: prevent overflows when calculating the mean of two
 values

---
 cpp/subprojects/common/include/mlrl/common/util/math.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/math.hpp b/cpp/subprojects/common/include/mlrl/common/util/math.hpp
index 86c6269..b518b29 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/math.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/math.hpp
@@ -24,8 +24,8 @@ namespace util {
     /**
      * Calculates the arithmetic mean of two values `small` and `large`, where `small < large`.
      *
-     * The mean is calculated as `small + ((large - small) * 0.5`, instead of `(small + large) / 2`, to prevent
-     * overflows.
+     * The mean is calculated as `small + ((large - small) * 0.5`, instead of `(small + large) / 2`, and using double
+     * precision, to prevent overflows. If no value between `small` and `large` exists, `small` is returned.
      *
      * @param small The smaller of both values
      * @param large The larger of both values
@@ -33,7 +33,9 @@ namespace util {
      */
     template<typename T>
     static inline constexpr T arithmeticMean(T small, T large) {
-        return small + ((large - small) * 0.5);
+        float64 smallValue = small;
+        T mean = (T) (smallValue + (((float64) large - smallValue) * 0.5));
+        return mean < large ? mean : small;
     }
 
     /**
-- 
2.43.0

