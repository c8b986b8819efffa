"""C13: the folds of a cross validation can be performed by separate processes."""
import copy

import bed
import lab
from bed import warm_up  # noqa: F401

ID, NAME = 'C13', 'c13'
VARIANT = 'plain'
COUNT = {'quick': 900, 'thorough': 40000}
TIME = {'quick': 55, 'thorough': 1500}
RULE = ('random data set x cross validation; the folds are performed by separate simulated processes that share the '
        'directories for data, outputs, models and parameters, in a random order and interleaving, some of them being '
        'interrupted by crashes or I/O errors and started again; non-trivial: at least two processes have been interleaved or '
        'a fault has been injected; distinct by case hash')
COMPONENTS = ('Real: mlrl-testbed, learners, C++ code. Simulated: disk, process crashes, interleaving of the operations of '
              'concurrent processes on the disk.')
ASSUMPTIONS = ['Each fold is performed by at most one process at a time.']


def gen(rng, i):
    experiment = bed.gen_experiment(rng, rng.choice(['cv', 'cv', 'cv-predefined']))
    folds = num_folds(experiment)
    order = list(range(folds))
    rng.shuffle(order)
    sessions = []
    while order:
        k = rng.choice([1, 2, 2, 3, 4])
        group, order = order[:k], order[k:]
        processes = []
        for f in group:
            fault = None
            if rng.random() < 0.35:
                fault = [rng.random(), rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 9]), rng.randrange(1, 3000)]
            processes.append({'fold': f, 'fault': fault, 'sticky': rng.random() < 0.5})
        sessions.append({'processes': processes, 'schedule': rng.randrange(2**31), 'burst': rng.choice([1, 2, 5, 20, 100])})
    return {'experiment': experiment, 'sessions': sessions, 'full': rng.random() < 0.4}


def num_folds(experiment):
    return int(experiment['args']['data-split'].split('=')[1][:-1])


def execute(case):
    out = {'violations': [], 'stats': {'executions': 1}, 'faults': {}, 'probes': {}, 'interleavings': []}
    faults, probes = out['faults'], out['probes']

    def violation(vclass, detail):
        out['violations'].append({'class': vclass, 'detail': detail})

    experiment = case['experiment']
    folds = num_folds(experiment)
    trace = []

    def of_folds(name):
        return '_fold-' in name and not name.endswith('.tmp')

    with bed.Scratch() as scratch:
        disk = scratch.disk(experiment)
        reference = bed.Process(disk, disk.argv()).wait()
        expected = disk.snapshot()
        if reference.code < 0:
            violation('died', f'the process was terminated by signal {-reference.code}: {reference.tail()}')
            return out
        if reference.code != 0:
            probes['raised'] = 1
            out['fingerprint'] = ['raised']
            out['outcome'] = reference.tail(300)
            return out
        total = reference.num_ops() // folds
        probes['finished'] = 1
        disk = scratch.disk(experiment)
        done = set()

        def argv(fold):
            return disk.argv({'data-split': 'cross-validation{num_folds=%d,current_fold=%d}' % (folds, fold + 1)}.items())

        def account(p):
            out['stats']['executions'] += 1
            out['stats']['disk_operations'] = out['stats'].get('disk_operations', 0) + p.num_ops()
            for kind, count in p.fired_kinds().items():
                faults[kind] = faults.get(kind, 0) + count

        for session in case['sessions']:
            gated = len(session['processes']) > 1
            running = []
            for q in session['processes']:
                if q['fold'] >= folds:
                    continue
                plan = [] if q['fault'] is None else [(1 + int(q['fault'][0] * total), q['fault'][1], q['fault'][2])]
                running.append((q['fold'], bed.Process(disk, argv(q['fold']), plan, q['sticky'], gated=gated)))
            picks = bed.interleave([p for _, p in running], session['schedule'], session['burst']) if gated else []
            for fold, p in running:
                p.wait()
                account(p)
                trace.append([fold, p.code, len(p.ops)])
                done.add(fold)
                if p.code < 0:
                    violation('died', f'the process that performs fold {fold + 1} was terminated by signal {-p.code}: {p.tail()}')
            if gated:
                probes['concurrent'] = 1
                out['interleavings'].append(lab.case_key([picks, experiment['args']]))
            for fold, p in running:
                if p.code == 0 and not p.fired_kinds():
                    continue
                if p.code != 0 and not p.fired_kinds():
                    violation('fold-failed', f'fold {fold + 1} of {folds} fails with exit code {p.code} in the sessions '
                              f'{describe(case)}, although no fault has been injected: {p.tail()}')
                    continue
                again = bed.Process(disk, argv(fold)).wait()
                account(again)
                trace.append([fold, again.code])
                probes['restarted'] = 1
                if again.code != 0:
                    violation('fold-failed', f'fold {fold + 1} of {folds} cannot be restarted (exit code {again.code}) after '
                              f'{describe(case)}: {again.tail()}')
            if out['violations']:
                break
        if not out['violations'] and done == set(range(folds)):
            actual = disk.snapshot()
            diff = bed.difference(expected, actual, of_folds)
            if diff:
                violation('different-results', f'after performing the folds individually in the sessions {describe(case)}: {diff}')
            elif case['full']:
                full = bed.Process(disk, disk.argv()).wait()
                account(full)
                probes['full cross validation'] = 1
                trace.append(['full', full.code])
                if full.code != 0:
                    violation('fold-failed', f'a full cross validation fails (exit code {full.code}) after performing the folds '
                              f'individually: {full.tail()}')
                else:
                    known = set(expected)
                    diff = bed.difference(expected, disk.snapshot(), lambda n: n in known or n.startswith('out/'))
                    if diff:
                        violation('different-results', f'a full cross validation after performing the folds individually: {diff}')
    out['fingerprint'] = [trace, lab.case_key(expected)]
    out['outcome'] = {'folds': folds, 'trace': trace, 'files': sorted(expected)}
    if faults or probes.get('concurrent'):
        out['nontrivial'] = lab.case_key(case)
    return out


def describe(case):
    return ' | '.join(','.join(str(q['fold'] + 1) + (f'!{bed.KIND_NAMES[q["fault"][1]]}' if q['fault'] else '') for q in s['processes'])
                      for s in case['sessions'])


def shrink(case):
    for k, session in enumerate(case['sessions']):
        if len(session['processes']) > 1:
            v = copy.deepcopy(case)
            v['sessions'][k:k + 1] = [dict(session, processes=[q]) for q in session['processes']]
            yield v
        for j, q in enumerate(session['processes']):
            if q['fault']:
                v = copy.deepcopy(case)
                v['sessions'][k]['processes'][j]['fault'] = None
                yield v
    if case['full']:
        v = copy.deepcopy(case)
        v['full'] = False
        yield v
    for e in bed.shrink_experiment(case['experiment']):
        v = copy.deepcopy(case)
        v['experiment'] = e
        yield v
