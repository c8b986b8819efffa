"""C12: predictions are what the rules of a model say."""
import copy
import json
import pickle
from pathlib import Path

import lab
import reference
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401
from props.history import incremental
from props.c02 import convert

ID, NAME = 'C12', 'c12'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration x query (format, kind of prediction, number of rules, one-shot or incrementally, '
        'model unpickled or not) with simulated threads; non-trivial: at least one rule with conditions covers an example '
        'and at least one does not; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (seeded scheduler), heap.'
ASSUMPTIONS = ['Scores are compared bit by bit (summed in the order of the rules), probabilities with a tolerance of 1e-12.']
# Known finding: sparse predictions of SeCo are the union of what is predicted by all rules
SPARSE_SECO = 'sparse-seco-predictions-ignore-order-of-rules'
# Known finding: isotonic calibration interpolates between identical thresholds
ZERO_THRESHOLD = 'isotonic-calibration-threshold-zero'
PINNED = ['c12_isotonic_threshold_zero']


def gen(rng, i):
    if i < len(PINNED):
        return json.loads((Path(__file__).parent.parent / f'pinned/{PINNED[i]}.json').read_text())
    case = lab.gen_base(rng, focus=rng.choice([(), lab.PREDICTION]))
    case['data']['nq'] = rng.choice([1, 3, 8, 20])
    case['data']['n'] = min(case['data']['n'], 25)
    if rng.random() < 0.4:
        case['data']['missing'] = rng.choice([0.1, 0.3])
    case['sim'] = lab.gen_sim(rng) if rng.random() < 0.5 else None
    case['heap'] = {'fill': rng.choice([1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    case['queries'] = []
    for _ in range(rng.choice([2, 4])):
        case['queries'].append({'kind': rng.choice(lab.QUERIES), 'max_rules': rng.choice([0, 0, 1, 2, 3, 5]),
                                'steps': rng.choice([0, 0, 1, 2, 3]), 'pickled': rng.random() < 0.3,
                                'format': rng.choice(['same', 'same', 'dense', 'csr', 'csc']),
                                'train': rng.random() < 0.3})
    return case


def logistic(v):
    import math
    return 1 / (1 + math.exp(-v)) if v >= 0 else math.exp(v) / (1 + math.exp(v))


def first_threshold_is_zero(learner):
    """Returns whether a list of bins of an isotonic calibration model starts with a threshold of zero."""
    found = []

    class Visitor:

        def __init__(self):
            self.seen = set()

        def visit_bin(self, index, threshold, _):
            if index not in self.seen:
                self.seen.add(index)
                found.append(threshold == 0)

    for model in (learner.marginal_probability_calibration_model_, learner.joint_probability_calibration_model_):
        if hasattr(model, 'visit'):
            model.visit(Visitor())
    return any(found)


def execute(case):
    import simlib
    x, y, xq, types, kwargs = lab.make_data(case['data'], case['learner'])
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}
    sim = case['sim']
    team, how = (sim['team'], sim['how']) if sim else (None, 'number')
    simlib.heap(case['heap'])
    learner = lab.fit(case, x, y, types, kwargs, team, how)
    out['fingerprint'].append(lab.model_digest(learner))
    if isinstance(learner, lab.Failed):
        out['probes']['raised'] = 1
        simlib.heap({})
        return out
    config = case['config']
    rules = reference.extract(learner.model_)
    outputs = y.shape[1]
    vectors = None
    nontrivial = False

    def bad(cls, k, detail):
        out['violations'].append({'class': cls, 'query': k, 'detail': f'{case["queries"][k]}: {detail}'})

    for k, query in enumerate(case['queries']):
        data = x if query['train'] else xq
        fmt = query['format']
        if case['data']['xformat'] != 'dense' and case['data']['sparse_value'] != 0.0:
            fmt = 'same'
        # Explicit conversion must not turn missing values into something else
        values = reference.rows(data, kwargs)
        data = convert(data, fmt)
        subject = pickle.loads(pickle.dumps(learner)) if query['pickled'] else learner
        limit = query['max_rules']
        count = min(limit, len(rules)) if limit else len(rules)
        if sim:
            simlib.sched_begin(sim)
        if query['steps']:
            predictor = incremental(subject, query['kind'], data, kwargs, limit)

            def run():
                result = None
                while predictor.has_next():
                    result = predictor.apply_next(query['steps'])
                return result

            result = predictor if isinstance(predictor, lab.Failed) else lab.attempt(run)
        else:
            result = lab.predict(subject, query['kind'], data, kwargs, limit)
        if sim:
            s = simlib.sched_end()
            merge_stats(out['stats'], s)
            merge_faults(out['faults'], s)
            out['interleavings'].append(s['scheduleHash'])
        else:
            out['stats']['executions'] += 1
        if isinstance(result, lab.Failed) or result is None:
            key = 'refused:' + query['kind']
            out['probes'][key] = out['probes'].get(key, 0) + 1
            out['fingerprint'].append('refused')
            continue
        out['fingerprint'].append(lab.digest(result))
        actual = result.toarray().tolist() if hasattr(result, 'toarray') else result.tolist()
        if actual and not isinstance(actual[0], list):
            actual = [[v] for v in actual]
        selected = rules[:count]
        if case['learner'] == 'seco' and count < len(rules) and rules[-1][0] is None:
            selected = rules[:count - 1] + rules[-1:]  # the default rule is the last one to be used
        covered = [[reference.covers(c, row) for c, _ in selected if c] for row in values]
        if any(any(r) for r in covered) and any(not all(r) for r in covered):
            nontrivial = True
        if case['learner'] == 'seco':
            if query['kind'] == 'binary':
                expected = reference.decisions(selected, values, outputs)
                if actual != expected:
                    bad('wrong-labels', k, f'{actual} instead of {expected}')
                    if hasattr(result, 'toarray') and actual == reference.union(selected, values, outputs):
                        out['violations'][-1]['signature'] = SPARSE_SECO
            continue
        expected = reference.scores(selected, values, outputs)
        scores = case['learner'] == 'boomer-r' or query['kind'] == 'scores'
        if scores:
            if query['kind'] == 'proba':
                continue
            if actual != expected:
                bad('wrong-scores', k, f'{actual} instead of {expected}')
        elif query['kind'] == 'binary':
            predictor = config.get('binary_predictor', 'auto')
            loss = config.get('loss', 'logistic-decomposable')
            if predictor.startswith('output-wise') and 'based_on_probabilities=true' not in predictor:
                threshold = 0.5 if 'hinge' in loss else 0.0
                wanted = [[int(v > threshold) for v in row] for row in expected]
                out['probes']['output-wise'] = out['probes'].get('output-wise', 0) + 1
                if actual != wanted:
                    bad('wrong-labels', k, f'{actual} instead of {wanted} (scores {expected})')
            elif predictor.startswith('example-wise') or predictor.startswith('gfm'):
                if vectors is None:
                    dense = y.toarray() if hasattr(y, 'toarray') else y
                    vectors = {tuple(int(v) for v in row) for row in dense}
                if predictor.startswith('example-wise'):
                    out['probes']['example-wise'] = out['probes'].get('example-wise', 0) + 1
                    for row in actual:
                        if tuple(int(v) for v in row) not in vectors:
                            bad('unknown-label-vector', k, f'{row} was predicted, although it is not included in the training '
                                'data')
                            break
        else:
            predictor = config.get('probability_predictor', 'auto')
            for row in actual:
                if not all(-1e-12 <= v <= 1 + 1e-12 for v in row):  # sums are subject to rounding errors
                    bad('invalid-probability', k, f'{row}')
                    if any(v != v for v in row) and first_threshold_is_zero(learner):
                        out['violations'][-1]['signature'] = ZERO_THRESHOLD
                    break
            loss = config.get('loss', 'logistic-decomposable')
            calibrated = any(config.get(c, 'none') != 'none' for c in ('marginal_probability_calibration',
                                                                     'joint_probability_calibration'))
            if predictor.startswith('output-wise') and loss.startswith('logistic') and not calibrated:
                out['probes']['probabilities'] = out['probes'].get('probabilities', 0) + 1
                for row, wanted in zip(actual, expected):
                    row = row[1:] if outputs == 1 and len(row) == 2 else row
                    if any(abs(a - logistic(b)) > 1e-12 for a, b in zip(row, wanted)):
                        bad('wrong-probabilities', k, f'{row} instead of {[logistic(b) for b in wanted]}')
                        break
        key = 'judged:' + query['kind']
        out['probes'][key] = out['probes'].get(key, 0) + 1
    simlib.heap({})
    out['probes']['learner:' + case['learner']] = 1
    if nontrivial:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{len(rules)} rules'
    return out


def shrink(case):
    if len(case['queries']) > 1:
        for k in range(len(case['queries'])):
            v = copy.deepcopy(case)
            v['queries'] = [v['queries'][k]]
            yield v
    if case['sim']:
        v = copy.deepcopy(case)
        v['sim'] = None
        yield v
    for k, query in enumerate(case['queries']):
        for key, value in (('max_rules', 0), ('steps', 0), ('pickled', False), ('format', 'same')):
            if query[key] != value:
                v = copy.deepcopy(case)
                v['queries'][k][key] = value
                yield v
    yield from lab.shrink_base(case)
