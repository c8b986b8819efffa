"""C08: a time limit ends the training after the rule that is learned when the limit is exceeded, and has no other effect."""
import copy

import lab
from props.base import warm_up, SIMULATOR  # noqa: F401

ID, NAME = 'C08', 'c08'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x configuration x history of trainings with a time limit while the simulated clocks advance, stall '
        'and jump at seeded points; non-trivial: at least one training was ended by the time limit before all rules were '
        'learned; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: all clocks (advance according to the allocations that are made by the C++ code, plus planned jumps), heap.'
ASSUMPTIONS = ['Simulated time passes while memory is allocated by the C++ code, i.e., at least a few times for each rule.']
SECOND = 10**9


def gen(rng, i):
    case = lab.gen_base(rng, max_rules=rng.choice([3, 5, 8, 12]))
    case['data']['n'] = min(case['data']['n'], 25)
    # Work that is done after the last rule has been learned makes it impossible to attribute points in time to rules
    case['config'].pop('sequential_post_optimization', None)
    for key in ('marginal_probability_calibration', 'joint_probability_calibration'):
        if key in case['config']:
            case['config'][key] = 'none'
    if rng.random() < 0.5:
        case['config'].pop('global_pruning', None)
    case['heap'] = {'fill': rng.choice([1, 2, 4, 5]), 'salt': rng.randrange(2**31)}
    case['clock'] = {'mono': rng.choice([0, 10**9, rng.randrange(10**15), rng.randrange(10**18)]),
                     'real': rng.choice([0, 1700000000 * SECOND, -10**18]), 'seed': rng.randrange(2**31),
                     'tick': rng.choice([0, 0, 1000])}
    case['runs'] = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        limit = rng.choice([1, 2, 10, 60, 3600, 86400, rng.randrange(1, 10**6)])
        kind = rng.choice(['jump', 'jump', 'jump', 'two', 'steps', 'below', 'wall', 'none', 'unlimited', 'huge'])
        case['runs'].append({
            'limit': limit, 'kind': kind, 'rule': rng.randrange(100), 'rule2': rng.randrange(100), 'at': rng.random() / 2,
            'excess': rng.choice([10**6, 10**6, SECOND // 2, SECOND, 1000 * SECOND]),
            'before': rng.choice([0, 1, 10**6, limit + 5, 10**5]) * SECOND,  # time that passes before training
            'wall': [[rng.random(), rng.choice([-1, 1]) * rng.choice([1, 3600, 10**8])] for _ in range(rng.choice([0, 1, 3]))],
            'object': rng.choice(['fresh', 'same', 'same', 'early']),
        })
    return case


def execute(case):
    import simlib
    x, y, _, types, kwargs = lab.make_data(case['data'], case['learner'])
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'probes': {}, 'fingerprint': []}
    full = case['config'].get('max_rules', 5)
    models, allocs = [], []
    simlib.heap(case['heap'])
    for j in range(1, full + 1):
        simlib.alloc_faults(True)
        learner = lab.fit(case, x, y, types, kwargs, max_rules=j)
        allocs.append(simlib.alloc_stats()[0])
        simlib.alloc_faults(False)
        models.append(lab.model_digest(learner))
        if isinstance(learner, lab.Failed):
            break
    out['fingerprint'].append(models)
    if isinstance(learner, lab.Failed):
        out['probes']['raised'] = 1
        simlib.heap({})
        return out
    # Rules during which the clock may be moved: those that need some effort. The timer runs since the first one at latest.
    usable = [j for j in range(2, full + 1) if allocs[j - 1] - allocs[j - 2] >= 60]
    # With global pruning, it is not known exactly during which rule a point in time is reached
    slack = 0 if case['config'].get('global_pruning', 'none') == 'none' else 3
    same = lab.make_learner(case, types)
    simlib.clock(case['clock'])
    early = lab.make_learner(case, types)
    ended = 0
    simulated_time = 0

    def count(name, n=1):
        out['faults'][name] = out['faults'].get(name, 0) + n

    for k, run in enumerate(case['runs']):
        limit = run['limit']
        if run['kind'] == 'unlimited':
            limit = 0
        elif run['kind'] == 'huge':
            limit = 2**32 - 1 - run['rule']
        events = []
        expected = full

        def point(rule):
            lo, hi = allocs[rule - 2], allocs[rule - 1]
            return lo + 12 + int((hi - lo - 24) * run['at'])

        if usable and run['kind'] in ('jump', 'two', 'steps', 'below', 'unlimited', 'huge'):
            rule = usable[run['rule'] % len(usable)]
            if run['kind'] == 'jump':
                events.append([point(rule), limit * SECOND + run['excess'], 0])
                expected = rule
            elif run['kind'] == 'two':
                second = usable[run['rule2'] % len(usable)]
                first, expected = min(rule, second), max(rule, second)
                events.append([point(first), limit * SECOND - 10**6, 0])
                events.append([point(expected) + 1, 2 * 10**6, 0])
            elif run['kind'] == 'steps':  # each rule takes the same fraction of the time
                number = 1 + usable.index(rule)
                for j in usable:
                    events.append([point(j), -(-limit * SECOND // number) + 10**6, 0])
                expected = rule
            elif run['kind'] == 'below':
                events.append([point(rule), limit * SECOND - 10**6 - len(models) * 10**3, 0])
            else:
                events.append([point(rule), 10**6 * SECOND, 0])
        if run['kind'] in ('jump', 'two', 'steps') and not events:
            out['probes']['no-usable-rule'] = out['probes'].get('no-usable-rule', 0) + 1
        for frac, jump in run['wall']:
            events.append([1 + int(frac * allocs[-1]), 0, jump * SECOND])
        learner = {'fresh': None, 'same': same, 'early': early}[run['object']]
        if learner is None:
            learner = lab.make_learner(case, types)
        learner.time_limit = limit
        simlib.pre.simpre_clock_advance(simlib.i64(run['before']), simlib.i64(0))
        start = simlib.clock_now()
        simlib.alloc_faults(True)
        simlib.clock_work(0, events)
        result = lab.attempt(learner.fit, x, y, **kwargs)
        simlib.clock_work()
        simlib.alloc_faults(False)
        simulated_time += simlib.clock_now() - start + run['before']
        out['stats']['executions'] += 1
        count('clock_stall', sum(1 for e in events if e[1]))
        count('wall_clock_jump', sum(1 for e in events if e[2]))
        count('pause_before_training', 1 if run['before'] else 0)
        actual = result.key() if isinstance(result, lab.Failed) else lab.model_digest(learner)
        out['fingerprint'].append(actual)
        if actual not in models[expected - 1:expected + slack]:
            got = [j + 1 for j, m in enumerate(models) if m == actual]
            rules = lab.num_rules(learner) if not isinstance(result, lab.Failed) else result.text()
            out['violations'].append({
                'class': 'wrong-model', 'run': k,
                'detail': f'{run}: expected the model that is learned when the number of rules is limited to {expected} of '
                          f'{full}, but got ' + (f'the one for {got} rules' if got else f'another one ({rules})')})
        elif events and models[expected - 1] != models[-1]:
            ended += 1
        out['probes'][run['kind']] = out['probes'].get(run['kind'], 0) + 1
    simlib.clock(None)
    simlib.heap({})
    out['stats']['simulated_seconds'] = simulated_time // SECOND
    out['probes']['learner:' + case['learner']] = 1
    out['probes']['ended-by-limit'] = ended
    if ended:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{len(case["runs"])} trainings, {ended} ended by the time limit'
    return out


def shrink(case):
    if len(case['runs']) > 1:
        for k in range(len(case['runs'])):
            v = copy.deepcopy(case)
            del v['runs'][k]
            yield v
    for k, run in enumerate(case['runs']):
        for key, value in (('wall', []), ('before', 0), ('object', 'fresh'), ('limit', 1), ('excess', 10**6), ('at', 0.25)):
            if run[key] != value:
                v = copy.deepcopy(case)
                v['runs'][k][key] = value
                yield v
    for key, value in (('mono', 10**9), ('real', 0), ('tick', 0)):
        if case['clock'][key] != value:
            v = copy.deepcopy(case)
            v['clock'][key] = value
            yield v
    yield from lab.shrink_base(case)
