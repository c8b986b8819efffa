"""C14: the rules of a boosted model are optimal for the training examples they cover."""
import copy
import json
import math
from pathlib import Path

import lab
import reference
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401

ID, NAME = 'C14', 'c14'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration with a decomposable loss, trained with simulated threads and adversarial contents of '
        'memory; the scores of each rule are compared with those that minimise the regularised loss for the training '
        'examples that satisfy its conditions, given the predictions of all previous rules; with single conditions, the '
        'rule is compared with all alternatives; non-trivial: at least 2 rules with conditions; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (seeded scheduler), heap.'
ASSUMPTIONS = ['Decomposable loss functions, no L1 regularisation, no holdout set, no label binning, no post-optimisation.']
LOSSES = {'boomer-c': ['logistic-decomposable', 'squared-error-decomposable', 'squared-hinge-decomposable'],
          'boomer-r': ['squared-error-decomposable']}


PINNED = ['c14_regression_partial',
          'c14_numerical_smallest_value',
          'c14_numerical_sparse_only',
          'c14_equal_width_empty_bins',
          'c14_irep',
          'c14_ordinal_zero_weights',
          'c14_binned_up_to_sparse_bin',
          'c14_binned_sparse_bin_index',
          'c14_sparse_explicit_only']


def gen(rng, i):
    if i < len(PINNED):  # known findings, excluded from the random configurations
        case = json.loads((Path(__file__).parent.parent / f'pinned/{PINNED[i]}.json').read_text())
        case['pinned'] = 'pinned:' + PINNED[i]
        return case
    case = lab.gen_base(rng, learners=['boomer-c', 'boomer-c', 'boomer-r'], max_rules=rng.choice([2, 3, 5, 8]))
    case['data']['n'] = min(case['data']['n'], 30) if case['data']['n'] < 65 else case['data']['n']
    case['data']['nq'] = 1
    config = case['config']
    config.pop('feature_binning', None)
    for key in ('holdout', 'sequential_post_optimization', 'global_pruning', 'l1_regularization_weight',
                'marginal_probability_calibration', 'joint_probability_calibration'):
        config.pop(key, None)
    config['loss'] = rng.choice(LOSSES[case['learner']])
    if case['learner'] == 'boomer-c':
        config['label_binning'] = 'none'
    if 'recalculate_predictions=false' in config.get('rule_induction', ''):
        config.pop('instance_sampling', None)
    config.pop('rule_pruning', None)
    case['exhaustive'] = rng.random() < 0.5
    if case['exhaustive']:  # all alternatives are known
        for key in ('instance_sampling', 'feature_sampling', 'output_sampling', 'feature_binning', 'rule_pruning'):
            config.pop(key, None)
        config['output_sampling'] = config['feature_sampling'] = 'none'
        config['rule_induction'] = 'top-down-greedy{max_conditions=1}'
        config['head_type'] = rng.choice(['single', 'complete'])
    data = case['data']
    if 'n' in data['types']:
        data.pop('explicit', None)
    if data.get('scale', 1) < 1:  # values that differ by less than an absolute epsilon are considered to be equal
        del data['scale']
    data['missing'] = rng.choice([0.1, 0.3]) if rng.random() < 0.3 else 0.0
    if 'instance_sampling' in config or 'holdout' in config:
        data['types'] = data['types'].replace('o', 'c' if 'explicit' in data else rng.choice('nc'))
    data['layout'] = rng.choice(['negative', 'duplicated'])
    if data['layout'] == 'duplicated':
        data['n'] = min(data['n'], 15)
        for key in ('holdout', 'instance_sampling'):
            config.pop(key, None)
    if data['missing'] or data['layout'] == 'duplicated':
        data['xformat'] = 'dense'
        config['feature_format'] = 'dense'
    if case['learner'] == 'boomer-r':
        config['head_type'] = 'complete'
        config['output_sampling'] = 'none'
    if not case['exhaustive'] and config.get('instance_sampling', 'none') == 'none' and rng.random() < 0.2:
        config['feature_binning'] = f'equal-frequency{{bin_ratio={rng.choice([0.2, 0.4, 0.6])}}}'
        config['rule_induction'] = 'top-down-greedy{max_conditions=1}'
    case['sim'] = lab.gen_sim(rng) if rng.random() < 0.6 else None
    case['heap'] = {'fill': rng.choice([1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    return case


def in_domain(case):
    """Returns whether a case is not subject to one of the known findings."""
    config, data = case['config'], case['data']
    if config.get('loss') not in LOSSES[case['learner']]:
        return False
    if case['learner'] == 'boomer-c' and config.get('label_binning') != 'none':
        return False
    if 'instance_sampling' in config and 'o' in data['types']:
        return False
    if ('explicit' in data and 'n' in data['types']) or data.get('scale', 1) < 1:
        return False
    if 'irep' in str(config.get('rule_pruning')):
        return False
    if 'feature_binning' in config and (not config['feature_binning'].startswith('equal-frequency')
                                        or config.get('rule_induction') != 'top-down-greedy{max_conditions=1}'
                                        or config.get('instance_sampling', 'none') != 'none'):
        return False
    if case['learner'] == 'boomer-r' and (config.get('head_type') != 'complete' or config.get('output_sampling') != 'none'):
        return False
    if data['missing'] or data['layout'] == 'duplicated':
        if data['xformat'] != 'dense' or config.get('feature_format') != 'dense':
            return False
    if case['exhaustive']:
        return (config.get('rule_induction') == 'top-down-greedy{max_conditions=1}'
                and config.get('head_type') in ('single', 'complete') and config.get('output_sampling') == 'none'
                and config.get('feature_sampling') == 'none')
    return True


def statistics(loss, score, truth):
    """First and second derivative of the loss function."""
    if loss.startswith('squared-error'):
        return score - truth, 1.0
    if loss.startswith('squared-hinge'):
        if truth > 0:
            return (score - 1 if score < 1 else 0.0), 1.0
        return (score if score > 0 else 0.0), 1.0
    p = 1 / (1 + math.exp(-score)) if score >= 0 else math.exp(score) / (1 + math.exp(score))
    return p - (1 if truth > 0 else 0), p * (1 - p)


def candidates(values, types):
    """All sets of examples that can be covered by a single condition."""
    n = len(values)
    for j, t in enumerate(types):
        present = [i for i in range(n) if not math.isnan(values[i][j])]
        levels = sorted({values[i][j] for i in present})
        if len(levels) < 2:
            continue
        if t == 'c':
            for v in levels:
                yield j, [i for i in present if values[i][j] == v]
                yield j, [i for i in present if values[i][j] != v]
        else:
            for v in levels[:-1]:
                yield j, [i for i in present if values[i][j] <= v]
                yield j, [i for i in present if values[i][j] > v]


def execute(case):
    import numpy as np
    import simlib
    x, y, _, types, kwargs = lab.make_data(case['data'], case['learner'])
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}
    sim = case['sim']
    team, how = (sim['team'], sim['how']) if sim else (None, 'number')
    config = case['config']
    simlib.heap(case['heap'])
    if sim:
        simlib.sched_begin(sim)
    learner = lab.fit(case, x, y, types, kwargs, team, how)
    if sim:
        s = simlib.sched_end()
        merge_stats(out['stats'], s)
        merge_faults(out['faults'], s)
        out['interleavings'].append(s['scheduleHash'])
    else:
        out['stats']['executions'] += 1
    out['fingerprint'].append(lab.model_digest(learner))
    simlib.heap({})
    if isinstance(learner, lab.Failed):
        out['probes']['raised'] = 1
        return out
    values = reference.rows(x, kwargs)
    dense = y.toarray() if hasattr(y, 'toarray') else y
    truth = np.asarray(dense, dtype=np.float32).astype(float).tolist()
    if case['learner'] == 'boomer-c':
        truth = [[1.0 if v else -1.0 for v in row] for row in truth]
    n, outputs = len(values), len(truth[0])
    shrinkage = config.get('shrinkage', 0.3)
    l2 = config.get('l2_regularization_weight', 1.0)
    loss = config['loss']
    scores = [[0.0] * outputs for _ in range(n)]
    rules = reference.extract(learner.model_, used=False)
    conditional = 0

    for k, (conditions, head) in enumerate(rules):
        stats = [[statistics(loss, scores[i][o], truth[i][o]) for o in range(outputs)] for i in range(n)]

        def total(indices, o):
            g = math.fsum(stats[i][o][0] for i in indices)
            h = math.fsum(stats[i][o][1] for i in indices)
            return g, h

        covered = [i for i in range(n) if reference.covers(conditions, values[i])]
        conditional += 1 if conditions else 0
        for o, score in head:
            g, h = total(covered, o)
            factor = 1.0 if conditions is None else shrinkage
            error = abs(score / factor * (h + l2) + g)
            scale = 1 + math.fsum(abs(stats[i][o][0]) for i in covered) + abs(score / factor) * (h + l2)
            if error > 1e-7 * scale:
                optimal = factor * -g / (h + l2) if h + l2 else 0.0
                out['violations'].append({
                    'class': 'suboptimal-head', 'rule': k,
                    'detail': f'rule {k} of {len(rules)} ({conditions}) covers the training examples {covered} and predicts '
                              f'{score} for output {o}, but the optimal score is {optimal}'})
                break
        if conditions and case['exhaustive'] and not out['violations']:
            def optimum(indices, o):
                g, h = total(indices, o)
                v = -g / (h + l2) if h + l2 else 0.0
                return v, g * v + 0.5 * (h + l2) * v * v

            def quality(indices):
                result = [optimum(indices, o) for o in range(outputs)]
                if config['head_type'] == 'complete':
                    return math.fsum(q for _, q in result)
                largest = max(abs(v) for v, _ in result)  # single-output heads predict the largest absolute score
                return max(q for v, q in result if abs(v) >= largest - 1e-9 * (1 + largest))

            actual = quality(covered)
            if config['head_type'] == 'single':
                o, score = head[0]
                largest = max(range(outputs), key=lambda i: abs(optimum(covered, i)[0]))
                v, actual = optimum(covered, o)
                if abs(v) < abs(optimum(covered, largest)[0]) * (1 - 1e-7) - 1e-9:
                    out['violations'].append({
                        'class': 'suboptimal-output', 'rule': k,
                        'detail': f'rule {k} of {len(rules)} ({conditions}) covers {covered} and predicts {score} for output '
                                  f'{o}, but a greater absolute score can be predicted for output {largest}'})
            best, where, which = min(((quality(c), j, c) for j, c in candidates(values, types) if c), default=(actual, 0, []))
            if best < actual - 1e-7 * (1 + abs(best)):
                out['violations'].append({
                    'class': 'suboptimal-rule', 'rule': k,
                    'detail': f'rule {k} of {len(rules)} ({conditions}) has a quality of {actual}, but a condition on '
                              f'feature {where} that covers {which} has a quality of {best}'})
            out['probes']['compared-with-alternatives'] = out['probes'].get('compared-with-alternatives', 0) + 1
        if out['violations']:
            break
        for i in covered:
            for o, score in head:
                scores[i][o] += score
    if case.get('pinned'):
        for v in out['violations']:
            v['signature'] = case['pinned']
    if 'feature_binning' in config:
        out['probes']['feature-binning'] = 1
    out['probes']['learner:' + case['learner']] = 1
    out['probes'][loss] = 1
    out['probes']['rules'] = len(rules)
    if conditional >= 2:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{len(rules)} rules'
    return out


def shrink(case):
    if case.get('pinned'):
        return
    if case['sim']:
        v = copy.deepcopy(case)
        v['sim'] = None
        yield v
        for team in (2, 3, 4):
            if team < case['sim']['team']:
                v = copy.deepcopy(case)
                v['sim']['team'] = team
                yield v
    for v in lab.shrink_base(case):
        if in_domain(v):
            yield v
