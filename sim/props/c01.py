"""C01: the result of training does not depend on the number of threads or their schedule."""
import copy

import lab
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401

ID, NAME = 'C01', 'c01'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random data set x learner configuration x simulated schedules; non-trivial: training succeeded, at least one '
        'region ran with at least 2 threads and at least one context switch was made; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (libgomp ABI), which is replaced by the seeded scheduler; heap and core count are simulated.'
ASSUMPTIONS = ['Sequentially consistent interleavings; effects of weak memory are covered by C03 (absence of races).']


def gen(rng, i):
    case = lab.gen_base(rng)
    # Parallel code has to be reached: some features and outputs are needed
    case['sims'] = [lab.gen_sim(rng) for _ in range(rng.choice([2, 3, 4]))]
    for sim in case['sims']:
        sim['heap'] = {'fill': rng.choice([0, 1, 2, 4, 5, 6]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    return case


def execute(case):
    import simlib
    x, y, _, types, kwargs = lab.make_data(case['data'], case['learner'])
    simlib.heap({'fill': 1, 'salt': 0})
    reference = lab.fit(case, x, y, types, kwargs)
    expected = lab.model_digest(reference)
    out = {'violations': [], 'stats': {}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': [expected]}
    nontrivial = False
    for k, sim in enumerate(case['sims']):
        simlib.heap(sim['heap'])
        simlib.sched_begin(sim)
        learner = lab.fit(case, x, y, types, kwargs, sim['team'], sim['how'])
        s = simlib.sched_end()
        if sim.get('detect'):
            out.setdefault('races', []).extend(simlib.races())
        if case.get('record') == k:
            out['trace'] = simlib.sched_trace()
        simlib.heap({})
        actual = lab.model_digest(learner)
        merge_stats(out['stats'], s)
        merge_faults(out['faults'], s)
        out['interleavings'].append(s['scheduleHash'])
        out['fingerprint'] += [actual, s['scheduleHash'], s['steps']]
        if s['parallelRegions'] and s['switches'] and not isinstance(learner, lab.Failed):
            nontrivial = True
        if actual != expected:
            out['violations'].append({
                'class': 'different-model', 'sim': k,
                'detail': f'training with {sim["team"]} threads (schedule {sim["strategy"]}/{sim["seed"]}) results in model '
                          f'{actual} ({lab.num_rules(learner)} rules), but training without multi-threading results in '
                          f'{expected} ({lab.num_rules(reference)} rules)'})
    probe = 'raised' if isinstance(reference, lab.Failed) else 'trained'
    out['probes'][probe] = 1
    if isinstance(reference, lab.Failed):
        out['probes'][reference.text()[:80]] = 1
    else:
        out['probes']['learner:' + case['learner']] = 1
    if nontrivial:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = f'{lab.num_rules(reference)} rules, model {expected}'
    return out


def shrink(case):
    if len(case['sims']) > 1:
        for k in range(len(case['sims'])):
            v = copy.deepcopy(case)
            v['sims'] = [v['sims'][k]]
            yield v
    yield from lab.shrink_base(case)
    for k, sim in enumerate(case['sims']):
        for team in (2, 3, 4):
            if team < sim['team']:
                v = copy.deepcopy(case)
                v['sims'][k]['team'] = team
                yield v
        for key, value in (('fewer', 0), ('stall', 0), ('scribble', 0), ('how', 'number'), ('strategy', 'chunk')):
            if sim[key] != value:
                v = copy.deepcopy(case)
                v['sims'][k][key] = value
                yield v


def traced(case, runner):
    if len(case['sims']) != 1:
        return None
    probe = copy.deepcopy(case)
    probe['record'] = 0
    _, results = runner.run(probe)
    trace = results[0].get('ok', {}).get('trace')
    if trace is None:
        return None

    def put(c, t):
        c['sims'][0]['trace'] = t
        return c

    return put(copy.deepcopy(case), trace), lambda c: c['sims'][0]['trace'], put
