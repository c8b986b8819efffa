"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the descriptions in this file."""
import json
import subprocess
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

C = 'cpp/subprojects/common/'
B = 'cpp/subprojects/boosting/'
S = 'cpp/subprojects/seco/'
P = 'python/subprojects/'

PROPERTIES = []
CHECKS = {}
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None, technique='', note=''):
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': list(observe),
                    'hook_needed': hook}})
    if technique:
        CHECKS[id] = {
            'property': id, 'quick_cmd': f'python3 sim/check.py {id}',
            'thorough_cmd': f'python3 sim/check.py {id} --tier thorough', 'evidence_file': f'evidence/{id}.json',
            'technique': technique, 'level': 'exploration', 'level_note': note}


prop('C01', 'The learned model does not depend on multi-threading',
     'Training on the same data with the same configuration and seed yields the same model (rules, conditions, predictions, '
     'calibration models and label vectors, bit by bit) no matter whether multi-threading is enabled, how many threads are '
     'requested or provided, and how these threads are scheduled. This holds for all learners and all of their options, and '
     'if training fails, then it fails in the same way.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of any number of threads, with threads that stall or are not provided, for all data sets and '
     'configurations of the learners',
     'The tests run a fixed data set per option on a single machine: They do not control the scheduler and nearly always use '
     'a single schedule.',
     [C + 'include/mlrl/common/rule_refinement/rule_refinement_statistics_based.hpp',
      C + 'src/mlrl/common/rule_refinement/feature_space_tabular.cpp',
      B + 'src/mlrl/boosting/statistics/statistics_provider_decomposable_dense.cpp',
      B + 'src/mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.cpp',
      S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp', C + 'src/mlrl/common/multi_threading/multi_threading_manual.cpp'],
     [('refinements are searched per feature and reduced in the order of the features afterwards',
       C + 'src/mlrl/common/rule_induction/rule_induction_common.hpp'),
      ('statistics are updated per example, no two threads update the same row',
       C + 'src/mlrl/common/rule_refinement/feature_space_tabular.cpp')],
     ['fitted learners: pickled state of model, predictors and label space info'],
     technique='deterministic simulation: seeded scheduler in place of the OpenMP runtime, comparison with a sequential run',
     note='Seeded search over interleavings (preemption at every memory access of the C++ code), numbers of threads, stalled '
          'or missing threads, heap residue; random data sets and configurations.')

prop('C02', 'Predictions do not depend on multi-threading or on the other examples',
     'For a fitted model, the predictions for an example (labels, scores, regression values, probability estimates; dense or '
     'sparse; with any limit on the number of rules) are bit by bit the same no matter how many threads are used, how these '
     'threads are scheduled and together with which other examples, and in which order, the example is queried.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of any number of threads, all models, queries, ways to split or reorder queries and options of '
     'the predictors',
     'The tests compare aggregated evaluation results of one query per option and never vary schedule, number of threads or '
     'the composition of queries.',
     [C + 'include/mlrl/common/prediction/predictor_common.hpp', B + 'include/mlrl/boosting/prediction/predictor_binary_common.hpp',
      B + 'include/mlrl/boosting/prediction/predictor_score_common.hpp',
      S + 'src/mlrl/seco/prediction/predictor_binary_output_wise.cpp', C + 'src/mlrl/common/model/body_conjunctive.cpp',
      P + 'common/mlrl/common/rule_learners.py'],
     [('one delegate per query, temporary memory per thread', C + 'include/mlrl/common/prediction/predictor_common.hpp')],
     ['predict', 'predict_proba'],
     technique='deterministic simulation: seeded scheduler in place of the OpenMP runtime, comparison with a sequential run',
     note='As C01, plus the decomposition of queries into parts, permutations and repetitions.')

prop('C03', 'Parallel sections are free of data races and always complete',
     'While training or predicting with multiple threads, no two threads access the same memory location without '
     'synchronisation if one of them writes to it, under any schedule. Each parallel section completes, i.e., training and '
     'prediction end after a bounded number of scheduling steps once no more threads are delayed, and the process neither '
     'deadlocks nor terminates.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all interleavings of any number of threads, including stalled and missing ones, for all data sets and configurations',
     'No test is executed with a race detector or a controlled scheduler; races rarely show up in the few, short, '
     'uncontrolled executions of the tests.',
     [C + 'src/mlrl/common/rule_refinement/feature_space_tabular.cpp',
      C + 'include/mlrl/common/rule_refinement/rule_refinement_statistics_based.hpp',
      C + 'include/mlrl/common/prediction/predictor_common.hpp',
      B + 'src/mlrl/boosting/statistics/statistics_provider_decomposable_sparse.cpp',
      S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp'],
     [('private copies of variables (firstprivate) and memory per thread', C + 'include/mlrl/common/util/openmp.hpp'),
      ('atomic updates of shared sums', S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp')],
     ['fit', 'predict', 'predict_proba'],
     technique='deterministic simulation: seeded scheduler with happens-before race detection on every memory access',
     note='Vector-clock race detection over instrumented accesses of the C++ code on simulated schedules; deadlock, step and '
          'CPU budgets for liveness.')

prop('C04', 'Data, configuration and seed alone determine models and predictions',
     'The model that is learned and the predictions that are obtained from it are determined by the data, the configuration '
     'and the random seed alone. They do not depend on the contents or addresses of memory that happens to be allocated, on '
     'what the process did before, on global random number generators, clocks, hash seeds, the number of CPU cores or how the '
     'same values are represented by the given arrays (memory layout, types of elements or indices, order of the indices of '
     'sparse matrices, explicitly stored zeros in sparse label matrices). No memory beyond the end of an allocated block is '
     'written, and training is refused if features and outputs are given for different numbers of examples.',
     ['histories', 'inputs', 'configurations'],
     'all contents of uninitialised and freed memory, operations executed before, clocks, array layouts and hash seeds',
     'The tests run each configuration once in a fresh process, where uninitialised memory is usually zero.',
     [C + 'include/mlrl/common/util/memory.hpp', C + 'src/mlrl/common/random/rng.cpp',
      C + 'src/mlrl/common/sampling/stratified_sampling_example_wise.cpp',
      C + 'src/mlrl/common/input/feature_matrix_csc.cpp', P + 'common/mlrl/common/arrays.py'],
     [('a separate generator per use is seeded from the random state', C + 'src/mlrl/common/random/rng.cpp'),
      ('buffers are initialised when being allocated, if requested', C + 'include/mlrl/common/util/memory.hpp')],
     ['fit', 'predict', 'predict_proba'],
     technique='deterministic simulation: heap, stack, clock and process history under a seeded environment, comparison of runs',
     note='Each case is executed in several seeded environments; models and predictions have to be identical.')

exec(Path(__file__).with_name('more.py').read_text() if Path(__file__).with_name('more.py').exists() else '')

if __name__ == '__main__':
    (VERIF / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in PROPERTIES))
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 sim/build.py sched',
        'checks': list(CHECKS.values()),
        'not_applicable': NOT_APPLICABLE,
    }
    (VERIF / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
