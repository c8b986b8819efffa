"""C03: parallel sections are free of data races and always complete."""
import lab
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401
from props.c01 import shrink, traced  # noqa: F401

ID, NAME = 'C03', 'c03'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
CPU = 90
RULE = ('random data set x configuration x simulated schedule of training and prediction, with a happens-before race '
        'detector over every memory access of the C++ code; non-trivial: a region with at least 2 threads ran and '
        'context switches were made; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (libgomp ABI), which is replaced by the seeded scheduler and race detector.'
ASSUMPTIONS = ['Accesses made within libc, libstdc++.so, BLAS/LAPACK and the Python runtime are not tracked (inlined parts '
               'of the C++ standard library are).',
               'Liveness: each execution has to finish within a budget of scheduling steps (40 million) and CPU time '
               '(90 s); typical executions need less than 100000 steps.']


def gen(rng, i):
    case = lab.gen_base(rng)
    case['data']['nq'] = rng.choice([2, 3, 5, 8, 13])
    case['sims'] = [lab.gen_sim(rng, detect=True)]
    case['sims'][0]['heap'] = {'fill': rng.choice([0, 1, 4, 5]), 'salt': rng.randrange(2**31), 'poison': False}
    case['sims'][0]['budget'] = 40_000_000
    case['queries'] = [rng.choice(lab.QUERIES) for _ in range(rng.choice([1, 2]))]
    return case


def execute(case):
    import simlib
    x, y, xq, types, kwargs = lab.make_data(case['data'], case['learner'])
    out = {'violations': [], 'stats': {}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}
    nontrivial = False
    for k, sim in enumerate(case['sims']):
        simlib.heap(sim['heap'])
        simlib.sched_begin(sim)
        learner = lab.fit(case, x, y, types, kwargs, sim['team'], sim['how'])
        results = []
        if not isinstance(learner, lab.Failed):
            results = [lab.predict(learner, q, xq, kwargs) for q in case['queries']]
        s = simlib.sched_end()
        races = simlib.races()
        if case.get('record') == k:
            out['trace'] = simlib.sched_trace()
        simlib.heap({})
        merge_stats(out['stats'], s)
        merge_faults(out['faults'], s)
        out['interleavings'].append(s['scheduleHash'])
        out['fingerprint'] += [lab.model_digest(learner), s['scheduleHash'], s['steps'], len(races)]
        out['fingerprint'] += [lab.digest(r) for r in results]
        if s['parallelRegions'] and s['switches']:
            nontrivial = True
        for race in races[:5]:
            out['violations'].append({
                'class': 'data-race',
                'detail': f'{race["access"]} of {race["size"]} bytes by thread {race["threads"][0]} in {race["in"]} '
                          f'({race["at"]}) is concurrent with {race["other"]} by thread {race["threads"][1]} in '
                          f'{race["other_in"]} ({race["other_at"]})'})
        out['probes']['raised' if isinstance(learner, lab.Failed) else 'trained'] = 1
    if nontrivial:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = out['fingerprint'][0]
    return out
