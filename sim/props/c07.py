"""C07: each model file behaves like a register that survives crashes and I/O errors."""
import copy
import json
import os
import random

import bed
import lab
from bed import warm_up  # noqa: F401

ID, NAME = 'C07', 'c07'
VARIANT = 'plain'
COUNT = {'quick': 2500, 'thorough': 120000}
TIME = {'quick': 55, 'thorough': 1500}
RULE = ('random history of sessions, each consisting of one to three simulated processes that save and load models (several '
        'learners, names and folds) in an interleaving chosen by the seed, with crashes, power losses and I/O errors at random '
        'operations on the disk; non-trivial: at least one crash, power loss or I/O error has been injected or at least two '
        'processes have been interleaved; distinct by case hash')
COMPONENTS = ('Real: mlrl.testbed.persistence, pickling of the learners (Python, Cython, C++). Simulated: disk, process '
              'crashes, power loss, interleaving of the processes.')
ASSUMPTIONS = ['A file is written by at most one process at a time (any number of processes may read it).',
               'After a power loss, data that has been synced and renames of synced files are retained, data that has not '
               'been synced may be truncated, zeroed or retained, renames may be lost.']
NAMES = [['boomer', None], ['boomer', 0], ['boomer', 1], ['seco', None]]


def gen_process(rng, index, num, length):
    ops = []
    for _ in range(length):
        if rng.random() < 0.55:
            ops.append(['save', rng.choice([n for n in range(len(NAMES)) if n % num == index]), rng.randrange(3)])
        else:
            ops.append(['load', rng.randrange(len(NAMES)) if rng.random() < 0.7 else 0])
    faults = []
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            faults.append([rng.randrange(1, 9 * length + 3), rng.choice([1, 1, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 9]), rng.randrange(1, 4000)])
    return {'ops': ops, 'faults': faults, 'sticky': rng.random() < 0.4}


def gen(rng, i):
    specs = []
    for _ in range(2):
        learner = rng.choice(['boomer-c', 'boomer-r', 'seco'])
        data = lab.gen_data(rng, learner)
        data['n'], data['nq'] = min(data['n'], 10), min(data['nq'], 4)
        specs.append({'learner': learner, 'data': data, 'config': lab.gen_config(rng, learner, rng.choice([0, 1, 2, 3]))})
    sessions = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        num = rng.choice([1, 1, 1, 2, 3])
        sessions.append({'processes': [gen_process(rng, k, num, rng.choice([1, 2, 3, 5])) for k in range(num)],
                         'schedule': rng.randrange(2**31), 'burst': rng.choice([1, 2, 5, 20]),
                         'power': rng.random() < 0.4, 'seed': rng.randrange(2**31)})
    return {'specs': specs, 'sessions': sessions, 'leftovers': rng.random() < 0.3}


def split_of(fold):
    from mlrl.testbed.data_splitting import CrossValidationFold, NoSplit
    return NoSplit() if fold is None else CrossValidationFold(3, fold, -1)


def identity(learner, xq, kwargs):
    return lab.model_digest(learner) + ' ' + lab.digest(lab.predict_all(learner, xq, kwargs))


def execute(case):
    out = {'violations': [], 'stats': {'executions': 0}, 'faults': {}, 'probes': {}, 'interleavings': []}
    faults, probes = out['faults'], out['probes']

    def violation(vclass, detail):
        out['violations'].append({'class': vclass, 'detail': detail})

    learners = []
    for spec in case['specs']:
        x, y, xq, types, kwargs = lab.make_data(spec['data'], spec['learner'])
        learner = lab.fit(spec, x, y, types, kwargs)
        if isinstance(learner, lab.Failed):
            probes['raised'] = probes.get('raised', 0) + 1
            continue
        learners.append((learner, xq, kwargs, identity(learner, xq, kwargs)))
    if not learners:
        return out
    with bed.Scratch() as scratch:
        disk = scratch.empty_disk()
        if case['leftovers']:
            for name in ('boomer_overall.model.tmp', 'boomer_fold-1.model.tmp', 'boomer_fold-2.tmp'):
                with open(os.path.join(disk.root, 'models', name), 'wb') as f:
                    f.write(b'\x80\x04incomplete')
        possible = {n: {0} for n in range(len(NAMES))}  # name -> uids that may be loaded, 0: there is no model
        uid = [0]
        owner_of_uid = {0: None}
        trace = []

        def body(process, uids, log_fd):
            """Executed by a simulated process. What has been observed is written to `log_fd`, which survives crashes."""
            import logging
            from mlrl.testbed.persistence import ModelPersistence
            errors = []

            class Handler(logging.Handler):

                def emit(self, record):
                    if record.levelno >= logging.ERROR:
                        errors.append(record.getMessage())

            logging.getLogger().addHandler(Handler())
            persistence = ModelPersistence(disk.root + '/models')

            def report(*entry):
                os.write(log_fd, (json.dumps(entry) + '\n').encode())

            for k, op in enumerate(process['ops']):
                errors.clear()
                name, fold = NAMES[op[1]]
                report('begin', k, 0)
                try:
                    if op[0] == 'save':
                        learner = learners[op[2] % len(learners)][0]
                        learner.random_state = uids[k]
                        persistence.save_model(learner, name, split_of(fold))
                        report('end', k, 'error' if errors else 'ok')
                    else:
                        loaded = persistence.load_model(name, split_of(fold))
                        if loaded is None:
                            report('end', k, [0, None, bool(errors)])
                        else:
                            u = int(loaded.random_state)
                            index = owner_of_uid.get(u)
                            _, xq, kwargs, expected = learners[index] if index is not None else learners[0]
                            report('end', k, [u, identity(loaded, xq, kwargs) == expected, bool(errors)])
                except Exception as e:  # pylint: disable=broad-except
                    report('end', k, f'{type(e).__name__}: {e}')

        sessions = case['sessions'] + [{
            'processes': [{'ops': [['load', n] for n in range(len(NAMES))] * 2, 'faults': [], 'sticky': False}],
            'schedule': 0, 'burst': 1, 'power': False, 'seed': 0, 'final': True}]
        for session in sessions:
            before = bed.raw_snapshot(disk)
            running = []
            gated = len(session['processes']) > 1
            started = {n: set(possible[n]) for n in possible}
            attempted = {n: [] for n in possible}
            plan = []
            for process in session['processes']:
                uids = {}
                plan.append((process, uids))
                for k, op in enumerate(process['ops']):
                    if op[0] == 'save':
                        uid[0] += 1
                        uids[k] = uid[0]
                        owner_of_uid[uid[0]] = op[2] % len(learners)
                        attempted[op[1]].append(uid[0])
            for process, uids in plan:
                fd = os.memfd_create('history')
                p = bed.Process(disk, ['models'], process['faults'], process['sticky'], None, gated,
                                (lambda process=process, uids=uids, fd=fd: body(process, uids, fd)))
                running.append((p, process, uids, fd))
                out['stats']['executions'] += 1
            picks = bed.interleave([r[0] for r in running], session['schedule'], session['burst']) if gated else []
            for p, process, uids, fd in running:
                p.wait()
                out['stats']['disk_operations'] = out['stats'].get('disk_operations', 0) + p.num_ops()
                for kind, count in p.fired_kinds().items():
                    faults[kind] = faults.get(kind, 0) + count
            crashed = any(r[0].code == bed.EXIT_CRASH for r in running)
            for index, (p, process, uids, fd) in enumerate(running):
                events = [json.loads(line) for line in bed.Process._read(fd).splitlines()]
                ended = {e[1]: e[2] for e in events if e[0] == 'end'}
                begun = {e[1] for e in events if e[0] == 'begin'}
                trace.append([p.code, ended, picks[:200]])
                if p.code not in (0, bed.EXIT_CRASH):
                    violation('died', f'a process ended with exit code {p.code}: {p.tail()}')
                    return out
                seen = {}
                disturbed = bool(process['faults'])
                for k, op in enumerate(process['ops']):
                    if k not in begun:
                        break
                    n = op[1]
                    own = n % len(running) == index
                    result = ended.get(k)
                    where = f'{op} of process {index} (names {NAMES[n]}, faults {process["faults"]})'
                    if op[0] == 'save':
                        if isinstance(result, str) and result not in ('ok', 'error'):
                            violation('save-raised', f'{where} raised {result}')
                        elif result == 'ok':
                            possible[n] = {uids[k]}
                        else:
                            if result == 'error' and not disturbed:
                                violation('save-failed', f'{where} failed without any fault')
                            possible[n] |= {uids[k]}
                        probes['save:' + str(result if isinstance(result, str) else 'crashed')] = 1
                        continue
                    if result is None:
                        continue
                    if isinstance(result, str):
                        violation('load-raised', f'{where} raised {result}')
                        continue
                    u, same, failed = result
                    allowed = possible[n] if own else started[n] | set(attempted[n])
                    probes['load:' + ('none' if u == 0 else 'model')] = 1
                    if u == 0:
                        if failed and disturbed:
                            continue  # an I/O error has been reported
                        if 0 not in allowed:
                            violation('lost-model', f'{where} did not find a model, although one of the versions '
                                      f'{sorted(allowed)} must exist')
                        continue
                    if u not in allowed:
                        violation('wrong-version', f'{where} returned version {u}, but must return one of {sorted(allowed)}')
                    elif not same:
                        violation('different-model', f'{where} returned a model that differs from the one that was saved')
                    if own:
                        possible[n] = {u}
                    else:
                        order = [*sorted(started[n]), *attempted[n]]
                        if n in seen and u in order and order.index(u) < order.index(seen[n]) and seen[n] in attempted[n]:
                            violation('stale-version', f'{where} returned version {u} after version {seen[n]}')
                        seen[n] = u
            if session['power'] and crashed and len(running) == 1:
                faults['power_loss'] = faults.get('power_loss', 0) + 1
                lost = bed.power_loss(disk, running[0][0], before, session['seed'])
                if lost:
                    faults['lost_writes'] = faults.get('lost_writes', 0) + lost
                for n in possible:
                    done = [u for u in attempted[n]]
                    possible[n] |= started[n] | set(done)
            if gated:
                probes['concurrent'] = 1
                out['interleavings'].append(lab.case_key([picks, [r[1]['ops'] for r in running]]))
            if out['violations']:
                break
    out['fingerprint'] = [trace]
    out['outcome'] = {'sessions': len(case['sessions']), 'trace': trace[:4]}
    if faults or probes.get('concurrent'):
        out['nontrivial'] = lab.case_key(case)
    return out


def shrink(case):
    for k in range(len(case['sessions'])):
        v = copy.deepcopy(case)
        del v['sessions'][k]
        yield v
    if case['leftovers']:
        v = copy.deepcopy(case)
        v['leftovers'] = False
        yield v
    for k, session in enumerate(case['sessions']):
        if session['power']:
            v = copy.deepcopy(case)
            v['sessions'][k]['power'] = False
            yield v
        for q, process in enumerate(session['processes']):
            for key in ('ops', 'faults'):
                for j in range(len(process[key])):
                    v = copy.deepcopy(case)
                    del v['sessions'][k]['processes'][q][key][j]
                    yield v
    for k, spec in enumerate(case['specs']):
        for key in sorted(spec['config']):
            v = copy.deepcopy(case)
            del v['specs'][k]['config'][key]
            yield v
