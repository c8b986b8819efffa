"""C15: the rules of a SeCo model are the best ones for the labels that are not covered by previous rules."""
import copy
import json
import math
from pathlib import Path

import lab
import reference
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401
from props.c14 import candidates

ID, NAME = 'C15', 'c15'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration of the SeCo learner without sampling and pruning, trained with simulated threads and '
        'adversarial contents of memory; for each rule, the confusion matrices of the labels that are not covered by '
        'previous rules are computed from scratch and its quality is compared with those of all alternatives (or, if rules '
        'have several conditions, of all of its refinements); the end of the training is compared with what remains to be '
        'covered; non-trivial: at least 2 rules with conditions; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (seeded scheduler), heap.'
ASSUMPTIONS = ['No sampling of examples, features or outputs, no holdout set, no pruning, no feature binning, greedy search.']


PINNED = ['c15_stops_early', 'c15_numerical_refinement']


def gen(rng, i):
    if i < len(PINNED):  # known findings, excluded from the random configurations
        case = json.loads((Path(__file__).parent.parent / f'pinned/{PINNED[i]}.json').read_text())
        case['pinned'] = 'pinned:' + PINNED[i]
        return case
    case = lab.gen_base(rng, learners=['seco'], max_rules=rng.choice([1, 2, 3, 5, 8, 12, 20]),
                        focus=('heuristic', 'head_type', 'lift_function'))
    config, data = case['config'], case['data']
    data['n'] = min(data['n'], 30) if data['n'] < 65 else data['n']
    data['nq'] = 1
    for key in ('holdout', 'sequential_post_optimization', 'feature_binning', 'pruning_heuristic'):
        config.pop(key, None)
    for key in ('instance_sampling', 'feature_sampling', 'output_sampling', 'rule_pruning'):
        config[key] = 'none'
    case['single'] = rng.random() < 0.6  # whether rules contain a single condition
    minimum = rng.choice([1, 1, 1, 2, 3])
    if case['single']:
        refine = rng.choice([0, 1, 2])
        config['rule_induction'] = ('top-down-greedy{max_conditions=1,max_head_refinements=%d,min_coverage=%d}'
                                    % (refine, minimum))
    else:
        config['rule_induction'] = 'top-down-greedy{max_conditions=0,max_head_refinements=0,min_coverage=%d}' % minimum
    case['min_coverage'] = minimum
    if 'n' in data['types']:
        data.pop('explicit', None)
    if data.get('scale', 1) < 1:  # values that differ by less than an absolute epsilon are considered to be equal
        del data['scale']
    data['missing'] = rng.choice([0.1, 0.3]) if rng.random() < 0.3 else 0.0
    data['layout'] = rng.choice(['negative', 'duplicated'])
    if data['layout'] == 'duplicated':
        data['n'] = min(data['n'], 15)
    if data['missing'] or data['layout'] == 'duplicated':
        data['xformat'] = 'dense'
        config['feature_format'] = 'dense'
    case['sim'] = lab.gen_sim(rng) if rng.random() < 0.6 else None
    case['heap'] = {'fill': rng.choice([1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    return case


def in_domain(case):
    """Returns whether a case is not subject to one of the known findings and fulfills the assumptions."""
    config, data = case['config'], case['data']
    if any(config.get(key) != 'none' for key in ('instance_sampling', 'feature_sampling', 'output_sampling', 'rule_pruning')):
        return False
    if not str(config.get('rule_induction')).startswith('top-down-greedy{max_conditions=' + ('1' if case['single'] else '0')):
        return False
    if not case['single'] and 'max_head_refinements=0' not in config['rule_induction']:
        return False
    if ('explicit' in data and 'n' in data['types']) or data.get('scale', 1) < 1:
        return False
    if data['missing'] or data['layout'] == 'duplicated':
        if data['xformat'] != 'dense' or config.get('feature_format') != 'dense':
            return False
    return True


def option(text, name, default):
    if '{' in text:
        for part in text.split('{')[1].rstrip('}').split(','):
            key, value = part.split('=')
            if key == name:
                return float(value)
    return default


def heuristic(text, covered, total):
    """
    covered, total: the number of (labels that differ from the majority, i.e., those a rule predicts correctly; others).
    """
    p, n = covered
    up, un = total[0] - p, total[1] - n
    name = text.split('{')[0]
    divide = lambda a, b: a / b if b else 0.0
    precision = divide(p, p + n)
    wra = 0.0
    if p + n > 0:
        everything = p + n + up + un
        wra = (p + n) / everything * (precision - (p + up) / everything)
    if name == 'accuracy':
        return divide(p + un, p + n + up + un)
    if name == 'precision':
        return precision
    if name == 'recall':
        return divide(p, p + up)
    if name == 'laplace':
        return (p + 1) / (p + n + 2)
    if name == 'weighted-relative-accuracy':
        return wra
    if name == 'f-measure':
        beta = option(text, 'beta', 0.25)**2
        return divide((1 + beta) * p, (1 + beta) * p + beta * up + n) if beta else precision
    if name == 'm-estimate':
        m = option(text, 'm', 22.466)
        if not m:
            return precision
        return (p + m * (p + up) / (p + n + up + un)) / (p + n + m) if p + n + up + un else 0.0
    raise ValueError(text)


def lift(text, k, outputs, cardinality):
    name = text.split('{')[0]
    if name == 'none':
        return 1.0
    if name == 'kln':
        return 1 + option(text, 'k', 0.2) * math.log(k)
    peak = int(option(text, 'peak_label', 2))
    peak = min(outputs, peak) if peak else max(cardinality, 1)
    largest, curvature = option(text, 'max_lift', 1.08), option(text, 'curvature', 1.0)
    if k == peak:
        return largest
    position = (k - 1) / (peak - 1) if k < peak else (outputs - k) / (outputs - peak)
    return 1 + position**(1 / curvature) * (largest - 1)


def execute(case):
    import numpy as np
    import simlib
    x, y, _, types, kwargs = lab.make_data(case['data'], case['learner'])
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}
    sim = case['sim']
    team, how = (sim['team'], sim['how']) if sim else (None, 'number')
    config = case['config']
    simlib.heap(case['heap'])
    if sim:
        simlib.sched_begin(sim)
    learner = lab.fit(case, x, y, types, kwargs, team, how)
    if sim:
        s = simlib.sched_end()
        merge_stats(out['stats'], s)
        merge_faults(out['faults'], s)
        out['interleavings'].append(s['scheduleHash'])
    else:
        out['stats']['executions'] += 1
    out['fingerprint'].append(lab.model_digest(learner))
    simlib.heap({})
    if isinstance(learner, lab.Failed):
        out['probes']['raised'] = 1
        return out
    values = reference.rows(x, kwargs)
    dense = np.asarray(y.toarray() if hasattr(y, 'toarray') else y)
    truth = [[bool(v) for v in row] for row in dense.tolist()]
    n, outputs = len(values), len(truth[0])
    rule_heuristic = config.get('heuristic', 'f-measure')
    head_type = config.get('head_type', 'single')
    lift_function = config.get('lift_function', 'peak')
    total_labels = sum(sum(row) for row in truth)
    # Same rounding as std::round and single-precision averages
    cardinality = math.floor(total_labels / n + 0.5)
    if 'peak' in lift_function and option(lift_function, 'peak_label', 2) == 0:
        if abs(total_labels / n - cardinality + 0.5) < 1e-3 or abs(total_labels / n - cardinality - 0.5) < 1e-3:
            out['probes']['cardinality subject to rounding'] = 1
            return out
    majority = [2 * sum(row[o] for row in truth) > n for o in range(outputs)]
    coverage = [[0] * outputs for _ in range(n)]
    rules = reference.extract(learner.model_, used=False)
    conditional = [r for r in rules if r[0] is not None]
    default = [r for r in rules if r[0] is None]
    lifts = [None] + [lift(lift_function, k, outputs, cardinality) for k in range(1, outputs + 1)]

    def violate(kind, detail):
        out['violations'].append({'class': kind, 'detail': detail})

    if default and (len(default) > 1 or rules[-1][0] is not None):
        violate('default-rule', f'the default rule is not the last one of {len(rules)} rules')
    for _, head in default:
        predicted = dict(head)
        wrong = [o for o in range(outputs) if predicted.get(o, 0.0) != float(majority[o])]
        if wrong:
            violate('default-rule', f'the default rule {head} does not predict the majority of the labels {wrong}')

    def remaining():
        return sum(1 for i in range(n) for o in range(outputs) if not coverage[i][o] and truth[i][o] != majority[o])

    def make_totals():
        result = []
        for o in range(outputs):
            p = sum(1 for i in range(n) if not coverage[i][o] and truth[i][o] != majority[o])
            result.append((p, sum(1 for i in range(n) if not coverage[i][o]) - p))
        return result

    def qualities(indices):
        result = []
        for o in range(outputs):
            p = q = 0
            for i in indices:
                if not coverage[i][o]:
                    if truth[i][o] != majority[o]:
                        p += 1
                    else:
                        q += 1
            result.append(heuristic(rule_heuristic, (p, q), totals[o]))
        return result

    def quality(indices):
        result = sorted(qualities(indices), reverse=True)
        if head_type == 'single':
            return result[0]
        best, s = -math.inf, 0.0
        for k, v in enumerate(result, 1):
            s += v
            best = max(best, s / k * lifts[k])
        return best

    tolerance = 1e-9
    wrongly_covered = False
    for k, (conditions, head) in enumerate(conditional):
        totals = make_totals()
        if not remaining():
            violate('superfluous-rule', f'rule {k} of {len(rules)} has been learned although all labels are covered')
            break
        covered = [i for i in range(n) if reference.covers(conditions, values[i])]
        what = f'rule {k} of {len(rules)} ({conditions}, {head}) covers {covered}'
        if any(score != float(not majority[o]) for o, score in head) or len({o for o, _ in head}) != len(head):
            violate('wrong-prediction', f'{what}, but the majority of the labels is {majority}')
            break
        if len(covered) < case['min_coverage'] and len(covered) < n:
            violate('coverage', f'{what}, i.e., less than {case["min_coverage"]} examples')
            break
        individual = qualities(covered)
        actual = math.fsum(individual[o] for o, _ in head) / len(head) * (lifts[len(head)] if head_type == 'partial' else 1.0)
        best = quality(covered)
        if actual < best - tolerance:
            violate('suboptimal-head', f'{what} with a quality of {actual}, but another head has a quality of {best}')
            break
        if not actual > -tolerance:
            violate('useless-rule', f'{what} with a quality of {actual}')
            break
        if case['single']:
            pool = candidates(values, types)
        else:  # no further refinement is better than the rule
            inner = candidates([values[i] for i in covered], types)
            # By design, nominal features are not refined again, unless other features have been used in between. For
            # numerical features, this might happen unintentionally (known finding)
            used = {feature for feature, op, _, kind in conditions
                    if op == 'neq' or (kind == 'numerical' and not case.get('pinned'))}
            pool = ((j, [covered[i] for i in c]) for j, c in inner if j not in used)
        where, which, best = max(((j, c, quality(c)) for j, c in pool if len(c) >= case['min_coverage']),
                                 key=lambda t: t[2], default=(0, [], actual))
        if best > actual + tolerance:
            violate('suboptimal-rule', f'{what} with a quality of {actual}, but a condition on feature {where} that covers '
                                       f'{which} has a quality of {best}')
            break
        for i in covered:
            for o, _ in head:
                if not coverage[i][o] and truth[i][o] == majority[o]:
                    wrongly_covered = True
                coverage[i][o] += 1
    if not out['violations'] and len(rules) < config['max_rules'] and remaining():
        # Training has ended, because no useful rule could be found
        totals = make_totals()
        best = max((quality(c) for _, c in candidates(values, types) if len(c) >= case['min_coverage']), default=0.0)
        if best > tolerance and (case.get('pinned') or not wrongly_covered):
            violate('stopped-early', f'after {len(rules)} rules, {remaining()} labels remain to be covered and there is another '
                                     f'rule with a quality of {best}')
        elif best > tolerance:
            out['probes']['known finding: labels covered wrongly'] = 1
        else:
            out['probes']['no more useful rules'] = 1
    if case.get('pinned'):
        for v in out['violations']:
            v['signature'] = case['pinned']
    for name in (head_type, rule_heuristic.split('{')[0], 'single condition' if case['single'] else 'many conditions'):
        out['probes'][name] = 1
    if not remaining():
        out['probes']['everything covered'] = 1
    out['probes']['rules'] = len(rules)
    if len(conditional) >= 2:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{len(rules)} rules'
    return out


def shrink(case):
    if case.get('pinned'):
        return
    if case['sim']:
        v = copy.deepcopy(case)
        v['sim'] = None
        yield v
        for team in (2, 3, 4):
            if team < case['sim']['team']:
                v = copy.deepcopy(case)
                v['sim']['team'] = team
                yield v
    for v in lab.shrink_base(case):
        if in_domain(v):
            yield v
