"""C10: an experiment that succeeds has written complete and correct outputs, whatever I/O errors have occurred."""
import copy

import bed
import lab
from bed import warm_up  # noqa: F401

ID, NAME = 'C10', 'c10'
VARIANT = 'plain'
COUNT = {'quick': 1500, 'thorough': 60000}
TIME = {'quick': 55, 'thorough': 1500}
RULE = ('random data set x experiment, executed once without faults and repeatedly with one to six I/O errors (full disk, '
        'I/O error, permission denied, too many open files, short reads and writes, interrupted system calls) at random '
        'operations on the disk; non-trivial: at least one fault has been injected; distinct by case hash')
COMPONENTS = ('Real: mlrl-testbed (argument parsing, data splitting, persistence, output writers), learners, C++ code. '
              'Simulated: disk (every open, read, write, fsync, close, rename, unlink below the directory of the case).')
ASSUMPTIONS = ['Buffered writes that have been accepted by the simulated disk are not lost later on, unless the machine crashes.']
HARMLESS = (6, 7)  # short reads or writes and interrupted system calls


def gen(rng, i):
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        mode = rng.random()
        kinds = HARMLESS if mode < 0.25 else (4, 5, 8, 9) if mode < 0.6 else (4, 5, 6, 7, 8, 9)
        runs.append({'faults': [[rng.random(), rng.choice(kinds), rng.randrange(1, 3000)] for _ in range(rng.choice([1, 1, 2, 3, 6]))],
                     'sticky': rng.random() < 0.5})
    return {'experiment': bed.gen_experiment(rng), 'runs': runs}


def execute(case):
    out = {'violations': [], 'stats': {}, 'faults': {}, 'probes': {}, 'interleavings': []}
    faults, probes = out['faults'], out['probes']

    def violation(vclass, detail):
        out['violations'].append({'class': vclass, 'detail': detail})

    experiment = case['experiment']
    trace = []
    with bed.Scratch() as scratch:
        disk = scratch.disk(experiment)
        reference = bed.Process(disk, disk.argv()).wait()
        expected = disk.snapshot()
        total = reference.num_ops()
        out['stats']['executions'] = 1
        if reference.code < 0:
            violation('died', f'the process was terminated by signal {-reference.code}: {reference.tail()}')
            return out
        if reference.code != 0:
            probes['raised'] = 1
            out['outcome'] = reference.tail(200)
            out['fingerprint'] = ['raised']
            return out
        probes['finished'] = 1
        for run in case['runs']:
            disk = scratch.disk(experiment)
            plan = [(1 + int(at * total), kind, arg) for at, kind, arg in run['faults']]
            p = bed.Process(disk, disk.argv(), plan, run['sticky']).wait()
            out['stats']['executions'] += 1
            out['stats']['disk_operations'] = out['stats'].get('disk_operations', 0) + p.num_ops()
            fired = p.fired_kinds()
            for kind, count in fired.items():
                faults[kind] = faults.get(kind, 0) + count
            if fired:
                out['nontrivial'] = lab.case_key(case)
                out['interleavings'].append(lab.case_key([plan, experiment['split'], sorted(experiment['args'])]))
            injected = [f'{op[1]} {op[2]}: {bed.KIND_NAMES.get(int(op[4]), op[6]) if op[6] == "fault" else op[6]}'
                        for op in p.ops if op[6] in ('fault', 'short', 'enospc', 'torn')]
            where = f'(faults: {injected[:6]})'
            trace.append([p.code, sorted(fired)])
            if p.code < 0:
                violation('died', f'the process was terminated by signal {-p.code} {where}: {p.tail()}')
                break
            actual = disk.snapshot()
            known = {e.replace(reference.disk.root, '') for e in reference.errors()}
            errors = [e for e in p.errors() if e.replace(p.disk.root, '') not in known]
            # Models must never be incomplete, even if a failure has been reported
            for name, content in actual.items():
                if name.startswith('models/') and name.endswith('.model') and content != expected.get(name):
                    violation('incomplete-model', f'{name} has been left behind {where}: {content[:200]}')
            if p.code != 0:
                probes['failed'] = 1
                if set(fired) <= {'short_read_or_write', 'interrupted'}:
                    violation('failed-without-reason', f'the experiment failed, although all operations can be completed {where}: {p.tail()}')
                elif 'Error' not in p.text and not p.errors():
                    violation('failed-without-message', f'the experiment failed with exit code {p.code} without a message {where}: {p.tail()}')
                continue
            probes['succeeded' + (' with errors' if errors else '')] = 1
            # If it succeeded, everything that should have been written must be complete. Only models, for which a failure
            # has been reported, may be missing.
            diff = bed.difference(expected, actual, lambda n: not n.endswith('.tmp') and not (errors and n.startswith('models/')))
            if diff:
                violation('incomplete-output', f'the experiment succeeded (errors: {errors[:2]}) {where}, but {diff}')
            elif bed.results_of(p) != bed.results_of(reference):
                violation('incomplete-output', f'the experiment succeeded {where}, but printed different results: '
                          + bed.difference({'output': bed.results_of(reference)}, {'output': bed.results_of(p)}))
            if set(fired) <= {'short_read_or_write', 'interrupted'} and errors:
                violation('failed-without-reason', f'errors are reported, although all operations can be completed {where}: {errors[:3]}')
            if out['violations']:
                break
    out['fingerprint'] = [trace, lab.case_key(expected)]
    out['outcome'] = {'operations': total, 'runs': trace, 'files': sorted(expected)}
    return out


def shrink(case):
    for k in range(len(case['runs'])):
        v = copy.deepcopy(case)
        del v['runs'][k]
        yield v
    for k, run in enumerate(case['runs']):
        for j in range(len(run['faults'])):
            v = copy.deepcopy(case)
            del v['runs'][k]['faults'][j]
            yield v
        if run['sticky']:
            v = copy.deepcopy(case)
            v['runs'][k]['sticky'] = False
            yield v
    for e in bed.shrink_experiment(case['experiment']):
        v = copy.deepcopy(case)
        v['experiment'] = e
        yield v
