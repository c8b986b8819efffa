"""C11: failures during training and prediction are reported as exceptions and do not affect anything else."""
import copy
import pickle

import lab
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401
from props.history import incremental

ID, NAME = 'C11', 'c11'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration x sequence of operations (training, prediction, incremental prediction), during '
        'each of which allocations of memory or calls to LAPACK fail at a seeded point, with or without simulated threads; '
        'non-trivial: at least one fault was injected during an operation and resulted in an exception; distinct by case hash')
COMPONENTS = SIMULATOR + ('Stub: OpenMP runtime (seeded scheduler), heap (malloc, operator new; failing on demand), '
                          'DSYSV (reports an error on demand, otherwise the function that is provided by SciPy).')
ASSUMPTIONS = ['Allocations of the C++ libraries fail, whereas those of the Python interpreter and of NumPy succeed.']

OPS = ['fit', 'fit', 'fit', 'refit', 'binary', 'scores', 'proba', 'inc-binary', 'inc-scores', 'inc-proba', 'pickle', 'pickle']


def gen(rng, i):
    case = lab.gen_base(rng, focus=rng.choice([(), lab.PREDICTION]))
    case['data']['n'] = min(case['data']['n'], 25)
    case['data']['nq'] = rng.choice([1, 3, 8])
    sim = lab.gen_sim(rng)
    case['sim'] = sim if rng.random() < 0.6 else None
    case['heap'] = {'fill': rng.choice([1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    case['faults'] = []
    for _ in range(rng.choice([3, 5, 8])):
        case['faults'].append({
            'op': rng.choice(OPS), 'kind': rng.choice(['alloc', 'alloc', 'lapack']),
            'frac': rng.choice([rng.random(), rng.random(), rng.random() ** 3, 0.0, 1 - rng.random() ** 3 / 10]),
            'count': rng.choice([1, 1, 1, 2, 7, 10**9]), 'info': rng.choice([1, 2, -3]),
        })
    return case


def execute(case):
    import simlib
    x, y, xq, types, kwargs = lab.make_data(case['data'], case['learner'])
    sim = case['sim']
    team, how = (sim['team'], sim['how']) if sim else (None, 'number')
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}

    def bad(cls, fault, detail):
        out['violations'].append({'class': cls, 'fault': fault, 'detail': f'{case["faults"][fault]}: {detail}'})

    simlib.heap(case['heap'])
    reference = lab.fit(case, x, y, types, kwargs, team, how)
    expected = lab.model_digest(reference)
    out['fingerprint'].append(expected)
    if isinstance(reference, lab.Failed):
        out['probes']['raised'] = 1
        simlib.heap({})
        return out

    def perform(learner, op):
        """Returns the digest of the result and the exception, if any."""
        if op in ('fit', 'refit'):
            result = lab.attempt(learner.fit, x, y, **kwargs)
            return (lab.model_digest(learner), None) if not isinstance(result, lab.Failed) else (None, result)
        if op == 'pickle':
            result = lab.attempt(lambda: pickle.loads(pickle.dumps(learner)))
            return (lab.model_digest(result), None) if not isinstance(result, lab.Failed) else (None, result)
        if op.startswith('inc-'):
            def run():
                predictor = incremental(learner, op[4:], xq, kwargs, 0)
                if isinstance(predictor, lab.Failed):
                    raise predictor.error
                results = []
                while predictor.has_next():
                    results.append(predictor.apply_next(2))
                return results
            result = lab.attempt(run)
        else:
            result = lab.predict(learner, op, xq, kwargs)
        return (lab.digest(result), None) if not isinstance(result, lab.Failed) else (None, result)

    def simulated(learner, op):
        if sim:
            simlib.sched_begin(sim)
        try:
            return perform(learner, op)
        finally:
            if sim:
                s = simlib.sched_end()
                merge_stats(out['stats'], s)
                merge_faults(out['faults'], s)
                out['interleavings'].append(s['scheduleHash'])
            else:
                out['stats']['executions'] += 1

    def fresh():
        return lab.make_learner(case, types, team, how)

    clean = {}
    reported = 0
    for k, fault in enumerate(case['faults']):
        op = fault['op']
        if op not in clean:
            target = fresh() if op == 'fit' else reference
            simlib.alloc_faults(True)
            simlib.lapack_faults()
            digest, error = simulated(target, op)
            calls = {'alloc': simlib.alloc_stats()[0], 'lapack': simlib.lapack_stats()[0]}
            simlib.alloc_faults(False)
            clean[op] = (digest, calls, error)
            if op == 'refit' and digest != expected:
                bad('changed', k, f'training again without faults resulted in {digest} instead of {expected}')
        digest, calls, error = clean[op]
        kind = fault['kind'] if calls[fault['kind']] else 'alloc'
        n = calls[kind]
        if n == 0 or error is not None:
            out['probes']['not-applicable'] = out['probes'].get('not-applicable', 0) + 1
            continue
        target = reference
        if op == 'fit':
            target = fresh()
        elif op == 'refit':
            target = fresh()
            lab.attempt(target.fit, x, y, **kwargs)
        at = 1 + min(n - 1, int(fault['frac'] * n))
        if kind == 'alloc':
            simlib.alloc_faults(True, at, fault['count'])
        else:
            simlib.lapack_faults(at, fault['count'], fault['info'])
        actual, failure = simulated(target, op)
        injected = simlib.alloc_stats()[1] if kind == 'alloc' else simlib.lapack_stats()[1]
        simlib.alloc_faults(False)
        simlib.lapack_faults()
        name = 'failed_allocation' if kind == 'alloc' else 'failed_lapack_call'
        out['faults'][name] = out['faults'].get(name, 0) + injected
        out['fingerprint'] += [actual, failure.key() if failure else None, injected]
        if failure is not None:
            reported += 1
            wanted = MemoryError if kind == 'alloc' else RuntimeError
            outcome = failure.key()
            if not isinstance(failure.error, wanted):
                bad('wrong-exception', k, f'a {name} was reported as {failure.text()} rather than as {wanted.__name__}')
        else:
            outcome = 'tolerated'
            if actual != digest:
                bad('wrong-result', k, f'{injected} x {name} did not result in an exception, but in {actual} instead of '
                    f'{digest}')
        out['probes'][f'{kind}:{outcome}'] = out['probes'].get(f'{kind}:{outcome}', 0) + 1
        # Everything must keep working
        if lab.model_digest(reference) != expected:
            bad('changed', k, 'another model has been modified')
        again, error = simulated(target, op)
        if again != digest:
            bad('changed', k, f'when repeating the operation without faults, it results in {again or error.text()} instead of '
                f'{digest}')
        out['fingerprint'].append(again)
    if simlib.heap_corruptions():
        out['violations'].append({'class': 'heap-corruption', 'detail': 'memory beyond the end of a block was overwritten'})
    simlib.heap({})
    out['probes']['learner:' + case['learner']] = 1
    if reported:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{lab.num_rules(reference)} rules, {reported} exceptions'
    return out


def shrink(case):
    if len(case['faults']) > 1:
        for k in range(len(case['faults'])):
            v = copy.deepcopy(case)
            v['faults'] = [v['faults'][k]]
            yield v
    if case['sim']:
        v = copy.deepcopy(case)
        v['sim'] = None
        yield v
        for team in (2, 3, 4):
            if team < case['sim']['team']:
                v = copy.deepcopy(case)
                v['sim']['team'] = team
                yield v
    for k, fault in enumerate(case['faults']):
        for key, value in (('count', 1), ('frac', 0.0)):
            if fault[key] != value:
                v = copy.deepcopy(case)
                v['faults'][k][key] = value
                yield v
    yield from lab.shrink_base(case)
