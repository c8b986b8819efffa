"""C04: data, configuration and seed alone determine the model and its predictions."""
import copy
import json
from pathlib import Path

import lab
from props.base import warm_up, SIMULATOR  # noqa: F401

ID, NAME = 'C04', 'c04'
COUNT = {'quick': 8000, 'thorough': 40000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration, executed in several simulated environments: contents and addresses of heap memory, '
        'residue on the stack, freed memory that is overwritten, clocks, CPU cores, state of global random number '
        'generators, memory layout of arrays, previous operations of the process, hash seeds (one process each); '
        'non-trivial: training succeeded and at least one rule was learned; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: heap (malloc, operator new: contents, placement, quarantine), clocks, number of CPU cores, OpenMP runtime.'
ASSUMPTIONS = ['The same build and the same BLAS kernels are used in all environments.']
FLAVOURS = [{}, {'PYTHONHASHSEED': '1', 'TZ': 'Pacific/Auckland', 'LANG': 'C'},
            {'PYTHONHASHSEED': '987654', 'OMP_NUM_THREADS': '4', 'MALLOC_ARENA_MAX': '1', 'LC_ALL': 'C.UTF-8'}]


def gen_env(rng):
    env = {
        'heap': {'fill': rng.choice([0, 1, 2, 3, 4, 4, 5, 6]), 'salt': rng.randrange(2**31),
                 'poison': rng.random() < 0.6},
        'stack': {'stack': rng.choice([0, 4096, 32768, 200000]), 'fill': rng.choice([1, 2, 3, 4, 5]),
                  'salt': rng.randrange(2**31)},
        'layout': rng.choice(['C', 'F', 'strided']), 'indices': rng.choice(['same', 'unsorted', 'int64']),
        'wide': rng.random() < 0.3, 'zeros': rng.random() < 0.3,
        'mismatch': rng.random() < 0.1, 'npseed': rng.randrange(2**31), 'cores': rng.choice([1, 2, 7, 64]),
        'flavour': rng.choice([0, 1, 2]), 'gc': rng.random() < 0.3, 'twice': rng.random() < 0.3,
    }
    if rng.random() < 0.5:
        env['clock'] = {'mono': rng.randrange(10**9, 10**15), 'real': rng.randrange(0, 2 * 10**18),
                        'seed': rng.randrange(2**31), 'tick': rng.choice([0, 1000, 10**9])}
    if rng.random() < 0.4:
        env['history'] = [lab.gen_base(rng, max_rules=rng.choice([1, 3])) for _ in range(rng.choice([1, 2]))]
        for h in env['history']:
            h['data']['n'] = min(h['data']['n'], 15)
    return env


def gen(rng, i):
    if i == 0:  # known finding, excluded from the random configurations
        case = json.loads((Path(__file__).parent.parent / 'pinned/c04_beam_binning.json').read_text())
        case['pinned'] = 'pinned:beam-search-on-binned-features'
        return case
    case = lab.gen_base(rng)
    case['envs'] = [gen_env(rng) for _ in range(rng.choice([2, 3]))]
    if rng.random() < 0.1:
        del case['config']['random_state']
    # Single-threaded or with the default number of threads
    case['threads'] = rng.choice(['off', 'off', 'default'])
    return case


REFERENCE = {'heap': {'fill': 1, 'salt': 0}, 'stack': {}, 'layout': 'C', 'npseed': 0, 'flavour': 0, 'cores': 4}


def tasks(case):
    by_flavour = {}
    for env in [REFERENCE] + case['envs']:
        by_flavour.setdefault(env['flavour'], []).append(env)
    for flavour in sorted(by_flavour):
        payload = {k: v for k, v in case.items() if k != 'envs'}
        payload['envs'] = by_flavour[flavour]
        yield flavour, payload


def explicit_zeros(case, y):
    """Explicitly stores some of the zeros in a sparse matrix, unless 'auto' derives the format from their number."""
    import numpy as np
    import scipy.sparse as sp
    config = case['config']
    if isinstance(y, np.ndarray) or any(
            config.get(f) not in ('sparse', 'dense') for f in ('output_format', 'prediction_format')):
        return y
    dense = y.toarray()
    rows, cols = np.nonzero((dense != 0) | (np.add.outer(np.arange(dense.shape[0]), np.arange(dense.shape[1])) % 3 == 0))
    return sp.csr_array((dense[rows, cols], (rows, cols)), shape=dense.shape)


def run_env(case, env):
    import gc
    import random
    import numpy as np
    import simlib
    simlib.heap(env['heap'])
    simlib.clock(env.get('clock'))
    simlib.pre.simpre_cores(simlib.i32(env['cores']))
    keep = []
    for h in env.get('history', []):
        x, y, xq, types, kwargs = lab.make_data(h['data'], h['learner'])
        learner = lab.fit(h, x, y, types, kwargs)
        if not isinstance(learner, lab.Failed):
            keep.append(lab.predict(learner, 'binary', xq, kwargs))
            keep.append(learner)
    if env.get('gc'):
        keep = []
        gc.collect()
    np.random.seed(env['npseed'] % 2**32)
    random.seed(env['npseed'])
    x, y, xq, types, kwargs = lab.make_data(case['data'], case['learner'])
    if env.get('zeros'):
        y = explicit_zeros(case, y)
    x, y, xq = (lab.relayout(m, env['layout'], env.get('indices', 'same'), env.get('wide', False)) for m in (x, y, xq))
    if env.get('mismatch'):
        # Not determined by the data, because examples without features or outputs are involved
        if x.shape[0] > 2:
            few = x[:-1] if env['npseed'] % 2 else x
            learner = lab.fit(case, few, y if few is not x else y[:-1], types, kwargs)
            if not isinstance(learner, lab.Failed) or not isinstance(learner.error, ValueError):
                return [{'model': 'not refused', 'predictions': {}, 'error': learner.text() if isinstance(
                    learner, lab.Failed) else 'training with inconsistent numbers of examples was not refused', 'rules': 0}]
    result = []
    for _ in range(2 if env.get('twice') else 1):
        simlib.scribble(env['stack'])
        extra = {}
        if case['threads'] == 'default':
            # "auto" / the default values are used, i.e., the learner decides
            extra = {k: None for k in lab.thread_params(None)}
        learner = lab.fit(case, x, y, types, kwargs, **extra)
        digest = lab.model_digest(learner)
        predictions = {}
        if not isinstance(learner, lab.Failed):
            simlib.scribble(env['stack'])
            predictions = {k: lab.digest(v) for k, v in lab.predict_all(learner, xq, kwargs).items()}
        result.append({'model': digest, 'predictions': predictions,
                       'error': learner.text() if isinstance(learner, lab.Failed) else '',
                       'rules': lab.num_rules(learner)})
    simlib.clock(None)
    simlib.heap({})
    return result


def execute(case):
    import simlib
    results = []
    for env in case['envs']:
        before = simlib.heap_corruptions()
        results += run_env(case, env)
        results[-1]['corrupted'] = simlib.heap_corruptions() - before
    faults = {}
    for env in case['envs']:
        for key, active in (('heap_contents', env['heap']['fill'] > 1), ('freed_memory_overwritten', env['heap'].get('poison')),
                            ('stack_residue', env['stack'].get('stack')), ('clock', env.get('clock')),
                            ('history', env.get('history')), ('array_layout', env['layout'] != 'C')):
            if active:
                faults[key] = faults.get(key, 0) + 1
    out = {'results': results, 'stats': {'executions': len(results)}, 'faults': faults,
           'probes': {'learner:' + case['learner']: 1, ('raised ' + results[0]['error'][:60]) if results[0]['error'] else 'trained': 1},
           'fingerprint': results}
    if results[0]['rules'] > 1:
        out['nontrivial'] = lab.case_key([case['learner'], case['data'], case['config']])
    out['outcome'] = results[0]
    return out


def judge(case, results):
    from check import died_violation
    violations = []
    expected = None
    for r in results:
        if 'died' in r:
            violations.append(died_violation(r))
            continue
        for entry in r['ok']['results']:
            if entry.get('corrupted'):
                violations.append({'class': 'heap-corruption',
                                   'detail': f'{entry["corrupted"]} blocks have been overwritten past their end'})
            if expected is None:
                expected = entry
            elif entry['model'] != expected['model']:
                violations.append({'class': 'different-model', 'detail': f'model {entry["model"]} ({entry["rules"]} rules '
                                   f'{entry["error"]}) vs. {expected["model"]} ({expected["rules"]} rules {expected["error"]})'})
            elif entry['predictions'] != expected['predictions']:
                diff = [k for k in entry['predictions'] if entry['predictions'][k] != expected['predictions'].get(k)]
                violations.append({'class': 'different-predictions', 'detail': f'same model, different predictions: {diff}'})
    if case.get('pinned'):
        for v in violations:
            v['signature'] = case['pinned']
    return violations


def shrink(case):
    if len(case['envs']) > 1:
        for k in range(len(case['envs'])):
            v = copy.deepcopy(case)
            v['envs'] = [v['envs'][k]]
            yield v
    for k, env in enumerate(case['envs']):
        for key in ('history', 'clock', 'gc', 'twice', 'wide', 'zeros', 'indices', 'mismatch'):
            if env.get(key):
                v = copy.deepcopy(case)
                del v['envs'][k][key]
                yield v
        for key in ('flavour', 'layout', 'npseed', 'cores', 'heap', 'stack'):
            if env[key] != REFERENCE[key]:
                v = copy.deepcopy(case)
                v['envs'][k][key] = REFERENCE[key]
                yield v
    yield from lab.shrink_base(case)
