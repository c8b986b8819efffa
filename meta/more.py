prop('C05', 'Operations on learners do not affect each other',
     'What an operation on a learner (training, prediction, probability estimation, pickling) results in does not depend on '
     'operations that have been executed on other learners, or earlier on the same one, in the process: Retraining an '
     'estimator equals training a fresh one, clones, copies and unpickled estimators behave like the original, requests that '
     'are refused have no side effects, arrays that are passed to the library are neither modified nor referenced after '
     'training, arrays that have been returned are not modified later, and discarding an object does not affect others.',
     ['histories', 'inputs', 'configurations'],
     'all interleaved histories of operations on any number of learners, incremental predictors, copies and clones',
     'Each test executes a single training followed by a single prediction in a process; histories are not tested at all.',
     [P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/mixins.py',
      P + 'common/mlrl/common/cython/rule_model.pyx', P + 'common/mlrl/common/cython/feature_matrix.pyx',
      P + 'boosting/mlrl/boosting/boosting_learners.py', P + 'seco/mlrl/seco/seco_learners.py'],
     [('the state of a fitted estimator is replaced by fit', P + 'common/mlrl/common/rule_learners.py'),
      ('serialization of models', P + 'common/mlrl/common/cython/rule_model.pyx')],
     ['fit', 'predict', 'predict_proba', 'pickle', 'clone', 'set_params'],
     technique='deterministic simulation: seeded histories of interleaved operations, comparison with isolated execution',
     note='Every result in a history is compared with the result of the same operation in isolation; with adversarial '
          'contents of freed memory and simulated threads.')

prop('C06', 'Incremental predictions equal predictions with a limited number of rules',
     'At any point of a history, an incremental predictor that has been advanced by k rules in total, in steps of any size, '
     'returns what the estimator it was created from predicts at that time when being restricted to k rules, and reports '
     'exactly the number of rules that remain; for all types of predictions and predictors. It keeps working when the '
     'estimator is retrained or discarded, or other predictors are used, and never modifies results it returned earlier.',
     ['histories', 'inputs', 'configurations'],
     'all histories of opening, advancing and closing incremental predictors with any step sizes and limits, interleaved '
     'with other operations',
     'The tests evaluate incremental predictions with a single step size per configuration, without any other operation in '
     'between, and compare rounded evaluation measures.',
     [C + 'include/mlrl/common/prediction/predictor_common.hpp', B + 'include/mlrl/boosting/prediction/predictor_binary_common.hpp',
      B + 'include/mlrl/boosting/prediction/predictor_score_common.hpp',
      B + 'include/mlrl/boosting/prediction/predictor_probability_common.hpp',
      P + 'common/mlrl/common/rule_learners.py', P + 'common/mlrl/common/mixins.py'],
     [('rules that have not been used yet are added to the aggregated scores', C + 'include/mlrl/common/prediction/predictor_common.hpp'),
      ('objects that are referenced by a predictor are kept alive', P + 'common/mlrl/common/rule_learners.py')],
     ['predict_incrementally', 'predict_proba_incrementally'],
     technique='deterministic simulation: seeded histories of incremental predictors, comparison with one-shot predictions',
     note='Reference model: table of the predictions for each number of rules, computed in isolation beforehand.')

T = P + 'testbed/mlrl/testbed/'

prop('C07', 'Model files survive crashes and I/O errors',
     'Each model file that is maintained by the test bed behaves like a register: loading a model returns the version that '
     'has been saved most recently (equal in all respects, including its predictions), or, if saving a newer version has been '
     'interrupted by a crash, a loss of power or an I/O error, either the previous or the newer one. It never returns anything '
     'else, never destroys an existing version without replacing it, and failures to save or load a model are reported rather '
     'than causing the program to terminate. Readers that run concurrently never observe incomplete models or go back to '
     'older versions.',
     ['crash_points', 'histories', 'schedules'],
     'all histories of saving and loading models by any number of processes (one writer per file at a time), all points at '
     'which a process or machine may crash, all operations on the disk that may fail',
     'The tests save and load each model once and never interrupt a program or let an operation on the disk fail.',
     [T + 'persistence.py', T + 'io.py', P + 'common/mlrl/common/rule_learners.py',
      P + 'common/mlrl/common/cython/rule_model.pyx'],
     [('a model is written to a temporary file, which is synced and then replaces the file', T + 'persistence.py')],
     ['ModelPersistence.save_model', 'ModelPersistence.load_model'],
     technique='deterministic simulation: simulated processes and disk with seeded crashes, power losses and I/O errors, '
               'comparison with a register as the reference model',
     note='Crashes before, after and in the middle of each operation on the disk, loss of data that is not synced, eight kinds '
          'of I/O errors, interleaving of concurrent processes decided by the seed.')

prop('C09', 'Interrupted experiments can be started again',
     'If an experiment is interrupted at any point, by a crash of the process, a loss of power or an I/O error, any number of '
     'times, starting it again with the same arguments succeeds and results in exactly the same output files, models and '
     'stored parameters as if it had never been interrupted. Files left behind by earlier experiments do not matter.',
     ['crash_points', 'histories', 'configurations'],
     'all points at which an experiment may be interrupted, repeatedly, for all kinds of data splits, output files and '
     'directories that are used for models and parameters',
     'The tests run each experiment once, without interrupting it, in a directory that does not contain any files yet.',
     [T + 'runnables.py', T + 'experiments.py', T + 'persistence.py', T + 'output_writer.py', T + 'parameters.py',
      T + 'predictions.py', T + 'models.py', T + 'io.py', T + 'data_splitting.py'],
     [('models and parameters that exist already are loaded', T + 'experiments.py'),
      ('the output directory is cleared before an experiment starts', T + 'runnables.py'),
      ('files are replaced atomically', T + 'output_writer.py')],
     ['output files', 'model files', 'parameter files', 'exit code'],
     technique='deterministic simulation: simulated processes and disk with seeded crashes, power losses and I/O errors, '
               'comparison with an experiment that is not interrupted',
     note='Up to three interruptions followed by a start without faults; clocks differ between the starts.')

prop('C10', 'An experiment that succeeds has written complete and correct outputs',
     'If an experiment ends successfully, then all outputs that have been requested were written completely and have the same '
     'contents as if no I/O error had occurred. If the outputs cannot be written, or the data cannot be read, it ends with a '
     'non-zero exit code and a message; if a model cannot be saved, an error is reported, and no incomplete model is left '
     'behind. Conditions that every program must be able to cope with (short reads or writes, interrupted system calls) do not '
     'have any effect at all.',
     ['fault_sequences', 'configurations'],
     'all sequences of I/O errors (full disk, failing devices, missing permissions, lack of file descriptors, ...) at any '
     'operations on the disk, for all kinds of experiments and outputs',
     'The tests never let an operation on the disk fail.',
     [T + 'output_writer.py', T + 'io.py', T + 'predictions.py', T + 'persistence.py', T + 'parameters.py', T + 'data.py',
      T + 'label_vectors.py', T + 'characteristics.py', T + 'main.py'],
     [('exceptions that occur while writing outputs are propagated', T + 'output_writer.py'),
      ('failures to save models are logged', T + 'persistence.py')],
     ['output files', 'model files', 'exit code', 'printed results and errors'],
     technique='deterministic simulation: simulated disk with seeded fault sequences, comparison with an execution without faults',
     note='One to six faults per execution, transient and persistent, six kinds of I/O errors at any operation on the disk.')

prop('C13', 'The folds of a cross validation can be performed by separate processes',
     'Performing the folds of a cross validation individually, by any number of processes that may run at the same time, share '
     'the same directories, run in any order, and may be interrupted and started again, results in the same output files, '
     'models and parameters for the individual folds as performing the cross validation as a whole. Performing the cross '
     'validation as a whole afterwards, based on these models, has the same results as well.',
     ['schedules', 'histories', 'crash_points', 'configurations'],
     'all assignments of folds to processes, orders and interleavings of their operations on the disk, and interruptions',
     'The tests perform a single fold in isolation and compare what it prints with a recorded output.',
     [T + 'data_splitting.py', T + 'runnables.py', T + 'experiments.py', T + 'output_writer.py', T + 'evaluation.py', T + 'io.py'],
     [('the splits are determined by the seed only', T + 'data_splitting.py'),
      ('the output directory is not cleared if a single fold is performed', T + 'runnables.py'),
      ('names of files include the number of the fold', T + 'io.py')],
     ['output files', 'model files', 'parameter files', 'exit code'],
     technique='deterministic simulation: interleaved simulated processes on a shared simulated disk with seeded crashes and '
               'I/O errors, comparison with a cross validation that is performed as a whole',
     note='Up to four folds, up to four processes at a time that are interleaved at each operation on the disk.')

N = C + 'src/mlrl/common/input/'
prop('C08', 'A time limit ends the training after the rule during which it is exceeded',
     'If a time limit is specified, training ends once the specified number of seconds has passed since it was started, as '
     'measured by a monotonic clock, i.e., after the first rule that is completed afterwards. The resulting model is the same '
     'as if the number of rules had been limited accordingly. If the limit is not exceeded, it does not have any effect at '
     'all, and neither do changes of the wall clock, the time that passed before training, or earlier trainings with the same '
     'or other learners.',
     ['schedules', 'histories', 'configurations'],
     'all points in time at which clocks may advance, stall or jump during training, all time limits, all histories of '
     'trainings in a process',
     'The test of the time limit uses a real clock with a limit that is never exceeded; no test can decide when time passes.',
     [C + 'src/mlrl/common/stopping/stopping_criterion_time.cpp', C + 'src/mlrl/common/stopping/stopping_criterion_list.cpp',
      C + 'src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp',
      C + 'src/mlrl/common/stopping/global_pruning_pre.cpp', C + 'src/mlrl/common/stopping/global_pruning_post.cpp'],
     [('the time is measured from the first test of the stopping criterion', C + 'src/mlrl/common/stopping/stopping_criterion_time.cpp')],
     ['fitted models'],
     technique='deterministic simulation: seeded virtual clocks that jump during training, comparison with models of limited size',
     note='The virtual time advances and jumps at seeded allocations of the C++ code; wall clock jumps in both directions.')

prop('C11', 'Failures during training and prediction are reported and have no side effects',
     'If memory cannot be allocated or a numerical subroutine (LAPACK) reports an error at any point of an operation '
     '(training, retraining, prediction, probability estimation, advancing an incremental predictor, (un)pickling), whether in '
     'the main thread or any other one, a Python exception (MemoryError or RuntimeError) is raised, i.e., the process is '
     'never terminated and never hangs, memory is not corrupted, and the operation does not return wrong results. When being '
     'repeated without failures, the operation has the same result as if the failure had not occurred, and an estimator that '
     'was fitted before remains usable.',
     ['fault_sequences', 'schedules', 'inputs', 'configurations'],
     'all allocations and calls to LAPACK that may fail, single or repeatedly, in any thread, during any operation',
     'The tests never let an allocation or a subroutine fail.',
     [C + 'include/mlrl/common/util/openmp.hpp', C + 'include/mlrl/common/util/memory.hpp', B + 'src/mlrl/boosting/util/lapack.cpp',
      C + 'include/mlrl/common/prediction/predictor_common.hpp', P + 'common/mlrl/common/cython/learner.pxd',
      P + 'common/mlrl/common/cython/learner_classification.pyx', P + 'common/mlrl/common/rule_learners.py'],
     [('exceptions thrown by threads are rethrown by the main thread', C + 'include/mlrl/common/util/openmp.hpp'),
      ('exceptions are translated by Cython', P + 'common/mlrl/common/cython/learner.pxd')],
     ['exceptions raised by fit, predict, predict_proba and pickle', 'results when being repeated'],
     technique='deterministic simulation: seeded allocation and LAPACK failures under a seeded scheduler, comparison with '
               'executions without failures',
     note='Allocations of the C++ code fail (once, several times or from some point on); those of Python and NumPy do not.')

prop('C12', 'Predictions are what the rules of a model say',
     'Predictions follow from the rules that are contained in a model: the scores (or regression values) that are predicted '
     'for an example are the sum of the scores predicted by the rules it satisfies, in the order of the rules, starting with '
     'the default rule; labels that are predicted output-wise are relevant if their score exceeds the threshold, those '
     'predicted example-wise are one of the label vectors in the training data; probability estimates are in [0, 1] and equal '
     'the logistic function of the score if not calibrated; a decision list predicts for each label what the first satisfied '
     'rule says. Missing values never satisfy a condition. This holds for dense and sparse examples, any number of rules, '
     'one-shot and incremental predictions, original and unpickled models, and any number of threads.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'all models, all representations of all examples, numbers of rules, kinds of predictions and schedules',
     'The tests compare rounded evaluation measures or outputs for a few fixed data sets with recorded ones.',
     [C + 'src/mlrl/common/model/body_conjunctive.cpp', C + 'src/mlrl/common/model/rule_list.cpp',
      B + 'include/mlrl/boosting/prediction/predictor_score_common.hpp', B + 'include/mlrl/boosting/prediction/predictor_binary_common.hpp',
      B + 'src/mlrl/boosting/prediction/transformation_binary_output_wise.cpp',
      B + 'src/mlrl/boosting/prediction/transformation_binary_example_wise.cpp',
      B + 'src/mlrl/boosting/prediction/predictor_probability_output_wise.cpp',
      S + 'src/mlrl/seco/prediction/predictor_binary_output_wise.cpp', P + 'common/mlrl/common/cython/rule_model.pyx'],
     [('conditions are compared with feature values', C + 'src/mlrl/common/model/body_conjunctive.cpp')],
     ['predict', 'predict_proba', 'rules obtained via RuleModel.visit'],
     technique='deterministic simulation: executable reference model of rules applied to seeded queries under a seeded '
               'scheduler and heap',
     note='The rules are read via the visitor interface; an independent Python implementation computes what they predict.')

prop('C14', 'The rules of boosted models minimise the loss for the examples they cover',
     'In models that are learned with a decomposable loss, each rule predicts, for each output it predicts for, the score '
     'that minimises the (second order approximation of the) L2-regularised loss for exactly those training examples that '
     'satisfy its conditions, given the predictions of all previous rules, multiplied by the '
     'shrinkage; and the default rule does so for all examples. If rules are restricted to a single condition and neither '
     'examples, features nor outputs are sampled, there is no other condition that would result in a better rule. This holds '
     'for all kinds of features (numerical, ordinal, nominal, dense, sparse, missing values), all loss functions and formats '
     'of statistics and labels, and regardless of threads.',
     ['inputs', 'schedules', 'configurations'],
     'all data sets and configurations, all schedules, all contents of uninitialised memory',
     'The tests compare learned models for a few fixed data sets with recorded ones, which turned out to contain wrong '
     'statistics.',
     [N + 'feature_based_search_numerical.hpp', N + 'feature_based_search_ordinal.hpp', N + 'feature_based_search_nominal.hpp',
      N + 'feature_vector_decorator_numerical.hpp', N + 'feature_vector_decorator_nominal.hpp',
      B + 'src/mlrl/boosting/statistics/statistics_decomposable_common.hpp', B + 'src/mlrl/boosting/losses/loss_decomposable_common.hpp',
      B + 'src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_complete.cpp',
      C + 'src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp',
      C + 'src/mlrl/common/rule_refinement/feature_space_tabular.cpp'],
     [('statistics of covered examples are aggregated incrementally while conditions are searched', N + 'feature_based_search_numerical.hpp'),
      ('gradients and Hessians are updated by each rule', B + 'src/mlrl/boosting/losses/loss_decomposable_common.hpp')],
     ['rules obtained via RuleModel.visit'],
     technique='deterministic simulation: executable reference model of gradient boosting, checked on seeded runs with a seeded '
               'scheduler and heap',
     note='Excluded are configurations affected by known findings (feature binning apart from equal-frequency binning with '
          'single conditions, IREP, partial heads for regression, numerical features with values on both sides of the sparse '
          'value), L1 regularisation, post-processing of models, and non-decomposable losses.')

prop('C15', 'Rules of SeCo models are the best ones for labels that are still uncovered',
     'In models that are learned by the separate-and-conquer learner without sampling or pruning, the head of each rule '
     'maximises the heuristic (multiplied by the lift of the number of predicted labels, if partial heads are used), '
     'calculated from the labels of the training examples that are not yet covered by previous rules; it predicts the opposite '
     'of the majority, covers at least the minimum number of examples, and no other condition (or, if rules consist of several '
     'conditions, no further condition) would result in a better rule. No rule is learned after all labels that differ from '
     'the majority have been covered, and training does not end earlier if there is another useful rule. The last rule predicts '
     'the majority. This holds for all kinds of features (dense, sparse, missing or huge values), heuristics and lift functions, '
     'and regardless of threads and the previous content of memory.',
     ['inputs', 'schedules', 'configurations'],
     'all data sets and configurations, all schedules, all contents of uninitialised memory',
     'The tests compare learned models for a few fixed data sets with recorded ones, which do not tell whether a rule is the '
     'best one: they agreed with a heuristic and a lift function that contradict their documentation.',
     [S + 'src/mlrl/seco/heuristics/heuristic_accuracy.cpp', S + 'src/mlrl/seco/lift_functions/lift_function_peak.cpp',
      S + 'src/mlrl/seco/rule_evaluation/rule_evaluation_decomposable_partial.cpp', N + 'feature_based_search.hpp',
      S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp',
      C + 'src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp'],
     [('confusion matrices of covered examples are aggregated incrementally', N + 'feature_based_search.hpp'),
      ('labels covered by a rule are not considered by later ones', S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp')],
     ['rules obtained via RuleModel.visit'],
     technique='deterministic simulation: executable reference model of separate-and-conquer rule learning, checked on seeded '
               'runs with a seeded scheduler and heap',
     note='Excluded are configurations affected by known findings (see known_findings.json), sampling, pruning, feature binning '
          'and holdout sets.')
