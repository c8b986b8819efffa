"""C02: predictions do not depend on the number of threads, their schedule or the other examples of a query."""
import copy
import random

import lab
from props.base import warm_up, merge_stats, merge_faults, SIMULATOR  # noqa: F401
from props.c01 import shrink as shrink_sims, traced  # noqa: F401

ID, NAME = 'C02', 'c02'
COUNT = {'quick': 8000, 'thorough': 60000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random model x query (kind of prediction, number of rules, format) x simulated schedules and partitions of the '
        'query; non-trivial: a prediction was obtained from a region with at least 2 threads and a context switch; '
        'distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime (libgomp ABI), which is replaced by the seeded scheduler; heap and core count are simulated.'
ASSUMPTIONS = ['Sequentially consistent interleavings; effects of weak memory are covered by C03 (absence of races).']


def gen(rng, i):
    case = lab.gen_base(rng, focus=lab.PREDICTION)
    case['data']['nq'] = rng.choice([1, 2, 3, 5, 8, 13, 21, 34])
    case['data']['n'] = min(case['data']['n'], 25)
    case['sims'] = [lab.gen_sim(rng) for _ in range(rng.choice([1, 2, 2]))]
    for sim in case['sims']:
        sim['heap'] = {'fill': rng.choice([0, 1, 2, 4, 5, 6]), 'salt': rng.randrange(2**31), 'poison': rng.random() < 0.5}
    case['queries'] = rng.sample(lab.QUERIES, rng.choice([2, 3, 3]))
    case['max_rules'] = rng.choice([0, 0, 1, 2, 4])
    case['splits'] = [[rng.choice(['rows', 'half', 'reverse', 'repeat', 'mixed', 'mixed']), rng.randrange(1000)]
                      for _ in range(rng.choice([1, 2, 3]))]
    case['qformat'] = rng.choice(['same', 'same', 'dense', 'csr', 'csc'])
    if case['data']['xformat'] != 'dense' and case['data']['sparse_value'] != 0.0:
        case['qformat'] = 'same'
    return case


def to_rows(m):
    return m.toarray() if hasattr(m, 'toarray') else m


def convert(xq, fmt):
    import scipy.sparse as sp
    if fmt == 'same':
        return xq
    dense = to_rows(xq)
    if fmt == 'dense':
        return dense
    return sp.csr_array(dense) if fmt == 'csr' else sp.csc_array(dense)


def take(xq, index):
    """Selects rows of a query."""
    import numpy as np
    if not hasattr(xq, 'toarray'):
        return np.ascontiguousarray(xq[index])
    part = xq.tocsr()[index]
    return part if xq.format == 'csr' else part.tocsc()


def execute(case):
    import numpy as np
    import simlib
    x, y, xq, types, kwargs = lab.make_data(case['data'], case['learner'])
    simlib.heap({'fill': 1, 'salt': 0})
    out = {'violations': [], 'stats': {}, 'faults': {}, 'interleavings': [], 'probes': {}, 'fingerprint': []}
    learner = lab.fit(case, x, y, types, kwargs)
    if isinstance(learner, lab.Failed):
        out['probes']['raised'] = 1
        out['fingerprint'] = [learner.key()]
        return out
    xq = convert(xq, case['qformat'])
    if case['qformat'] in ('csr', 'csc'):
        kwargs = {'sparse_feature_value': 0.0}
    elif case['qformat'] == 'dense':
        kwargs = {}
    expected = {}
    for kind in sorted(set(case['queries'])):
        result = lab.predict(learner, kind, xq, kwargs, case['max_rules'])
        expected[kind] = (lab.digest(result), result)
        out['probes'][kind + (':raised' if isinstance(result, lab.Failed) else '')] = 1
        out['fingerprint'].append(expected[kind][0])
    nontrivial = False
    for k, sim in enumerate(case['sims']):
        simlib.heap(sim['heap'])
        simlib.sched_begin(sim)
        for key, value in lab.thread_params(sim['team'], sim['how']).items():
            setattr(learner, key, value)
        results = [(kind, lab.predict(learner, kind, xq, kwargs, case['max_rules'])) for kind in case['queries']]
        s = simlib.sched_end()
        if case.get('record') == k:
            out['trace'] = simlib.sched_trace()
        simlib.heap({})
        merge_stats(out['stats'], s)
        merge_faults(out['faults'], s)
        out['interleavings'].append(s['scheduleHash'])
        out['fingerprint'] += [s['scheduleHash'], s['steps']]
        for kind, result in results:
            actual = lab.digest(result)
            out['fingerprint'].append(actual)
            if s['parallelRegions'] and s['switches'] and not isinstance(result, lab.Failed):
                nontrivial = True
            if actual != expected[kind][0]:
                out['violations'].append({
                    'class': 'different-predictions', 'sim': k,
                    'detail': f'{kind} predictions with {sim["team"]} threads (schedule {sim["strategy"]}/{sim["seed"]}): '
                              f'{lab.describe(result)}, without multi-threading: {lab.describe(expected[kind][1])}'})
    # The prediction for an example does not depend on the other examples
    team = case['sims'][-1]['team'] if case['sims'] else None
    for key, value in lab.thread_params(team).items():
        setattr(learner, key, value)
    n = xq.shape[0]
    rows = list(range(n))
    parts = []
    for split, seed in case['splits']:
        if split == 'rows':
            parts += [[r] for r in rows]
        elif split == 'half':
            parts += [rows[:n // 2], rows[n // 2:]]
        elif split == 'reverse':
            parts += [rows[::-1]]
        elif split == 'repeat':
            parts += [rows + rows]
        else:
            parts += [random.Random(seed).choices(rows, k=n)]
    if case['sims']:
        simlib.sched_begin(case['sims'][0])
    for kind in sorted(expected):
        whole = expected[kind][1]
        if isinstance(whole, lab.Failed):
            continue
        whole = to_rows(whole)
        for part in parts:
            sub = take(xq, part) if part else None
            if sub is None:
                continue
            result = lab.predict(learner, kind, sub, kwargs, case['max_rules'])
            if isinstance(result, lab.Failed):
                out['violations'].append({'class': 'part-raised', 'detail': f'{kind} for rows {part}: {result.text()}'})
                break
            got = to_rows(result)
            same = got.shape == whole[part].shape and np.array_equal(got, whole[part], equal_nan=True)
            out['stats']['parts'] = out['stats'].get('parts', 0) + 1
            if not same:
                out['violations'].append({
                    'class': 'depends-on-other-examples',
                    'detail': f'{kind} predictions for rows {part}: {lab.describe(got)}, as part of the whole query: '
                              f'{lab.describe(whole[part])}'})
                break
    if case['sims']:
        s = simlib.sched_end()
        merge_stats(out['stats'], s)
    out['probes']['learner:' + case['learner']] = 1
    if nontrivial:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = {k: v[0] for k, v in expected.items()}
    return out


def shrink(case):
    if len(case['queries']) > 1:
        for q in case['queries']:
            v = copy.deepcopy(case)
            v['queries'] = [q]
            yield v
    if len(case['splits']) > 1:
        for split in case['splits']:
            v = copy.deepcopy(case)
            v['splits'] = [split]
            yield v
    for key, value in (('max_rules', 0), ('qformat', 'same')):
        if case[key] != value:
            v = copy.deepcopy(case)
            v[key] = value
            yield v
    yield from shrink_sims(case)
