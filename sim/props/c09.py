"""C09: an experiment that is interrupted can be started again and leads to the same results."""
import copy
import random

import bed
import lab
from bed import warm_up  # noqa: F401
from props.base import SIMULATOR

ID, NAME = 'C09', 'c09'
VARIANT = 'plain'
COUNT = {'quick': 1500, 'thorough': 60000}
TIME = {'quick': 55, 'thorough': 1500}
RULE = ('random data set x experiment (learner, split, outputs to be written, directories); started up to three times with '
        'a crash of the process, a crash of the machine or an I/O error at a random operation on the disk, and then started '
        'again without any faults; non-trivial: at least one of the starts was interrupted before its end; distinct by '
        'case hash')
COMPONENTS = ('Real: mlrl-testbed (argument parsing, data splitting, persistence, output writers), learners, C++ code. '
              'Simulated: disk (every open, read, write, fsync, close, rename, unlink below the directory of the case), clock, '
              'process crashes, power loss.')
ASSUMPTIONS = ['After a power loss, data that has been synced and renames of synced files are retained, data that has not '
               'been synced may be truncated, zeroed or retained, renames may be lost.']


def gen_interruption(rng):
    kind = rng.choice([1, 1, 2, 3, 3, 3, 4, 5, 8, 9])
    return {'at': rng.random(), 'kind': kind, 'arg': rng.randrange(1, 5000), 'sticky': rng.random() < 0.5,
            'power': kind in bed.CRASHES and rng.random() < 0.4, 'seed': rng.randrange(2**31), 'clock': bed.gen_clock(rng)}


def gen(rng, i):
    case = {'experiment': bed.gen_experiment(rng), 'interruptions': [gen_interruption(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
            'stale': rng.random() < 0.3, 'clock': bed.gen_clock(rng)}
    if rng.random() < 0.3:  # only used if it is a cross validation
        case['fold'] = rng.random()
    return case


def stale_files(disk, experiment):
    """Files of an earlier experiment in the output directory."""
    import os
    for name in ('evaluation_test_overall.csv', 'evaluation_test_fold-1.csv', 'evaluation_training_fold-2.csv',
                 'rules_overall.txt', 'predictions_test_fold-1.arff', 'old.txt'):
        with open(os.path.join(disk.root, 'out', name), 'w', encoding='utf-8') as f:
            f.write('Model size,x\n1,2\n')


def execute(case):
    out = {'violations': [], 'stats': {}, 'faults': {}, 'probes': {}, 'interleavings': []}
    faults, probes = out['faults'], out['probes']

    def violation(vclass, detail):
        out['violations'].append({'class': vclass, 'detail': detail})

    experiment = case['experiment']
    extra = {}
    split = experiment['args']['data-split']
    if 'fold' in case and split.startswith('cross-validation'):  # a single fold of a cross validation
        folds = int(split.split('=')[1][:-1])
        extra['data-split'] = 'cross-validation{num_folds=%d,current_fold=%d}' % (folds, 1 + int(case['fold'] * folds))
        probes['single fold'] = 1
    with bed.Scratch() as scratch:
        disk = scratch.disk(experiment)
        reference = bed.Process(disk, disk.argv(extra)).wait()
        expected = disk.snapshot()
        total = reference.num_ops()
        out['stats']['executions'] = 1
        probes['split:' + experiment['split']] = 1
        if reference.code < 0:
            violation('died', f'the process was terminated by signal {-reference.code}: {reference.tail()}')
            return out
        if reference.code != 0:
            probes['raised'] = 1
            out['outcome'] = reference.tail(200)
            out['fingerprint'] = ['raised']
            return out
        probes['finished'] = 1
        disk = scratch.disk(experiment)
        if case['stale']:
            stale_files(disk, experiment)
            faults['stale_output_files'] = 1
        trace = []
        interrupted = False
        for k in case['interruptions']:
            before = bed.raw_snapshot(disk)
            at = 1 + int(k['at'] * total)
            p = bed.Process(disk, disk.argv(extra), [(at, k['kind'], k['arg'])], k['sticky'], k['clock']).wait()
            out['stats']['executions'] += 1
            out['stats']['disk_operations'] = out['stats'].get('disk_operations', 0) + p.num_ops()
            last = p.ops[-1][1:3] if p.ops else ['nothing', '']
            trace.append([at, p.code, last])
            if p.code < 0:
                violation('died', f'the process was terminated by signal {-p.code}: {p.tail()}')
                break
            if p.fired():
                name = bed.KIND_NAMES[k['kind']]
                faults[name] = faults.get(name, 0) + 1
                probes['interrupted:' + last[0] + ':' + last[1].split('/')[0]] = 1
                out['interleavings'].append(lab.case_key([trace, experiment['split'], sorted(experiment['args'])]))
                interrupted = True
            if k['power'] and p.code == bed.EXIT_CRASH:
                faults['power_loss'] = faults.get('power_loss', 0) + 1
                lost = bed.power_loss(disk, p, before, k['seed'])
                if lost:
                    faults['lost_writes'] = faults.get('lost_writes', 0) + lost
        if not out['violations']:
            final = bed.Process(disk, disk.argv(extra), clock=case['clock']).wait()
            out['stats']['executions'] += 1
            trace.append([0, final.code])
            actual = disk.snapshot()
            history = ', '.join(f'[{t[0]}: {" ".join(t[2])} -> exit {t[1]}]' for t in trace[:-1])
            if final.code != 0:
                violation('restart-failed', f'after the interruptions {history} of {total} operations, the experiment '
                          f'cannot be finished anymore (exit code {final.code}): {final.tail()}')
            else:
                # Temporary files that are left behind next to models or parameters are of no relevance, and neither are
                # those in the output directory if it is not cleared, because it is shared with other folds
                known = set(expected)
                diff = bed.difference(expected, actual, lambda n: n in known or n.startswith('out/') and not extra)
                if diff:
                    violation('different-results', f'after the interruptions {history} of {total} operations and a final '
                              f'start without faults: {diff}')
                if bool(final.errors()) != bool(reference.errors()) and not experiment['model_dir'] and not experiment['parameters']:
                    violation('different-results', f'errors are reported after the restart: {final.errors()[:3]}')
        out['fingerprint'] = [trace, lab.case_key(expected)]
        out['outcome'] = {'operations': total, 'interruptions': trace, 'files': sorted(expected)}
        if interrupted:
            out['nontrivial'] = lab.case_key(case)
    return out


def shrink(case):
    for k in range(len(case['interruptions'])):
        v = copy.deepcopy(case)
        del v['interruptions'][k]
        yield v
    if case['stale']:
        v = copy.deepcopy(case)
        v['stale'] = False
        yield v
    for k, i in enumerate(case['interruptions']):
        for key, value in (('power', False), ('clock', {}), ('kind', 1), ('sticky', False)):
            if i[key] != value:
                v = copy.deepcopy(case)
                v['interruptions'][k][key] = value
                yield v
    if 'fold' in case:
        v = copy.deepcopy(case)
        del v['fold']
        yield v
    if case['clock']:
        v = copy.deepcopy(case)
        v['clock'] = {}
        yield v
    for e in bed.shrink_experiment(case['experiment']):
        v = copy.deepcopy(case)
        v['experiment'] = e
        yield v
