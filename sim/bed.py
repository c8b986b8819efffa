"""The test bed under simulation: experiments (mlrl-testbed) are executed in simulated processes that share a simulated
disk. Processes may crash at any operation on the disk and only what has been written until then survives."""
import json
import os
import random
import re
import shutil
import sys
import tempfile

import lab

# Kinds of faults of the disk, see simpre.cpp
CRASH_BEFORE, CRASH_AFTER, CRASH_TORN, ENOSPC, EIO, SHORT, EINTR, EACCES, EMFILE = range(1, 10)
KIND_NAMES = {1: 'crash_before_operation', 2: 'crash_after_operation', 3: 'crash_torn_write', 4: 'disk_full', 5: 'io_error',
              6: 'short_read_or_write', 7: 'interrupted', 8: 'permission_denied', 9: 'too_many_open_files'}
CRASHES = (CRASH_BEFORE, CRASH_AFTER, CRASH_TORN)
EXIT_CRASH = 77

# ---------------------------------------------------------------------------------------------------------- generation

MEASURES = ['true', 'false', 'true{decimals=3}', 'true{percentage=false}']


def gen_experiment(rng, split=None):
    """A random experiment: data set files and command line arguments."""
    learner = rng.choice(['boomer-c', 'boomer-c', 'boomer-c', 'boomer-r', 'seco', 'seco'])
    data = lab.gen_data(rng, learner)
    data.update(n=rng.choice([8, 10, 12, 16, 20]), nq=1, missing=0.0, xformat='dense', yformat='dense', sparse_value=0.0)
    data['f'] = min(data['f'], 5)
    data['types'] = data['types'][:data['f']]
    data['l'] = rng.choice([1, 2, 3, 4])
    config = {k: v for k, v in lab.gen_config(rng, learner, rng.choice([1, 2, 3, 5])).items()
              if k not in ('sequential_post_optimization', )}
    if learner == 'boomer-r':
        data['levels'] = min(data['levels'], 5)
    split = split or rng.choice(['none', 'train-test', 'train-test', 'predefined', 'cv', 'cv', 'cv', 'cv-predefined'])
    on = lambda p: rng.random() < p
    p = rng.choice([0.2, 0.5, 0.9])
    args = {}
    if split == 'none':
        args['data-split'] = 'none'
    elif split in ('train-test', 'predefined'):
        args['data-split'] = rng.choice(['train-test', 'train-test{test_size=0.5}'])
    else:
        args['data-split'] = 'cross-validation{num_folds=%d}' % rng.choice([2, 2, 3, 4])
    args['print-evaluation'] = rng.choice(MEASURES)
    # The time that is needed is not expected to be reproducible
    args['store-evaluation'] = rng.choice([
        'true{training_time=false,prediction_time=false}', 'true{training_time=false,prediction_time=false}',
        'true{decimals=4,training_time=false,prediction_time=false}', 'false'])
    for name, values in (('evaluate-training-data', ['true']), ('one-hot-encoding', ['true']),
                         ('store-predictions', ['true', 'true{decimals=3}']),
                         ('print-predictions', ['true']), ('store-prediction-characteristics', ['true']),
                         ('store-data-characteristics', ['true', 'true{decimals=3}']), ('print-label-vectors', ['true']),
                         ('store-label-vectors', ['true', 'true{sparse=true}']), ('print-rules', ['true']),
                         ('store-rules', ['true', 'true{decimals_head=3}', 'true{print_bodies=false}']),
                         ('store-model-characteristics', ['true']), ('print-model-characteristics', ['true']),
                         ('print-parameters', ['true']), ('print-data-characteristics', ['true'])):
        if on(p * (0.3 if name in ('one-hot-encoding', ) or name.startswith('print') else 1)):
            args[name] = rng.choice(values)
    if learner == 'boomer-r':
        for name in ('store-label-vectors', 'print-label-vectors', 'store-prediction-characteristics'):
            args.pop(name, None)
    if learner == 'boomer-c':
        if on(p * 0.5):
            args['store-marginal-probability-calibration-model'] = 'true'
        if on(p * 0.5):
            args['store-joint-probability-calibration-model'] = 'true'
        args['prediction-type'] = rng.choice(['binary', 'binary', 'scores', 'probabilities'])
    elif learner == 'boomer-r':
        args['prediction-type'] = 'scores'
    if args.get('prediction-type', 'binary') != 'binary':
        args.pop('store-prediction-characteristics', None)
    if on(0.35):
        args['incremental-evaluation'] = rng.choice(['true', 'true{step_size=2}', 'true{min_size=2,step_size=2}'])
    return {
        'learner': learner, 'data': data, 'config': config, 'split': split, 'args': args,
        'arff': rng.choice(['dense', 'dense', 'sparse']), 'xml': rng.random() < 0.6,
        'model_dir': rng.random() < 0.75, 'parameters': rng.choice([None, None, None, 'given', 'stored']),
    }


def gen_clock(rng):
    if rng.random() < 0.4:
        return {}
    return {'mono': rng.randrange(10**9, 10**15), 'real': rng.randrange(0, 2 * 10**18), 'seed': rng.randrange(2**31),
            'tick': rng.choice([0, 1000, 10**7]),
            'events': [[rng.randrange(40), rng.randrange(10**10), rng.randrange(-10**12, 10**12)] for _ in range(rng.choice([0, 2]))]}


# ---------------------------------------------------------------------------------------------------- simulated process


class Disk:
    """The directories that are used by an experiment, below a directory that is private to this case."""

    def __init__(self, root, experiment):
        self.root = root
        self.experiment = experiment
        for d in ('data', 'out', 'models', 'params'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        write_data_set(os.path.join(root, 'data'), experiment)
        if experiment.get('parameters') == 'given':
            write_parameters(os.path.join(root, 'params'), experiment)

    def argv(self, extra=()):
        e = self.experiment
        module = 'mlrl.seco' if e['learner'] == 'seco' else 'mlrl.boosting'
        argv = ['mlrl-testbed', module, '--data-dir', self.root + '/data', '--dataset', 'sim', '--output-dir', self.root + '/out']
        if e['learner'] == 'boomer-r':
            argv += ['--problem-type', 'regression']
        args = dict(e['args'])
        for k, v in e['config'].items():
            args[k.replace('_', '-')] = v
        if e.get('model_dir'):
            args['model-dir'] = self.root + '/models'
        if e.get('parameters'):
            args['parameter-dir'] = self.root + '/params'
            if e['parameters'] == 'stored':
                args['store-parameters'] = 'true'
        for k in ('parallel-rule-refinement', 'parallel-statistic-update', 'parallel-prediction'):
            args[k] = 'false'
        args.update(dict(extra))
        for k in sorted(args):
            argv += ['--' + k, str(args[k])]
        return argv

    def snapshot(self):
        """The durable state: contents of output files and what has been learned by models."""
        result = {}
        for d in ('out', 'models', 'params'):
            base = os.path.join(self.root, d)
            for name in sorted(os.listdir(base)):
                path = os.path.join(base, name)
                if os.path.isdir(path):
                    result[d + '/' + name] = 'directory'
                elif d == 'models':
                    result[d + '/' + name] = load_model(path)
                else:
                    with open(path, 'rb') as f:
                        result[d + '/' + name] = f.read().decode('latin1')
        return result


def load_model(path):
    import pickle
    try:
        with open(path, 'rb') as f:
            learner = pickle.load(f)
            return 'model ' + lab.model_digest(learner) + ' ' + json.dumps(
                {k: str(v) for k, v in learner.get_params(deep=False).items() if v is not None}, sort_keys=True)
    except Exception as e:  # pylint: disable=broad-except
        return f'unreadable: {type(e).__name__}: {e}'


def rows_of(experiment):
    import numpy as np
    data = dict(experiment['data'])
    x, y, _, types, _ = lab.make_data(data, experiment['learner'])
    if experiment['learner'] == 'boomer-r':
        y = np.round(np.abs(y))  # the test bed reads integers only
    return x, y, types


def write_arff(path, x, y, types, experiment, all_values):
    lines = ['@relation ' + ("'sim: -C %d'" % (y.shape[1] if not experiment['xml'] else -y.shape[1]))]
    names = [f'x{j}' for j in range(x.shape[1])]
    attributes = []
    for j, t in enumerate(types):
        if t == 'c':
            attributes.append(f'@attribute {names[j]} {{{",".join(all_values[j])}}}')
        else:
            attributes.append(f'@attribute {names[j]} {"integer" if t == "o" else "numeric"}')
    regression = experiment['learner'] == 'boomer-r'
    outputs = [f'@attribute y{j} ' + ('numeric' if regression else '{0,1}') for j in range(y.shape[1])]
    # Without an XML file, the outputs have to be located at the start
    lines += (attributes + outputs) if experiment['xml'] else (outputs + attributes)
    lines.append('@data')
    for i in range(x.shape[0]):
        xs = [str(int(v)) if t in 'co' else repr(float(v)) for v, t in zip(x[i], types)]
        ys = [str(int(v)) for v in y[i]]
        values = xs + ys if experiment['xml'] else ys + xs
        if experiment['arff'] == 'sparse':
            items = [f'{k} {v}' for k, v in enumerate(values) if float(v) != 0.0]
            lines.append('{' + ','.join(items) + '}')
        else:
            lines.append(','.join(values))
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


def write_data_set(directory, experiment):
    x, y, types = rows_of(experiment)
    values = [[str(int(v)) for v in sorted(set(x[:, j]))] for j in range(x.shape[1])]
    values = [['0'] + [v for v in vs if v != '0'] for vs in values]
    n = x.shape[0]
    split = experiment['split']
    if split == 'predefined':
        parts = [('sim_training', range(0, n - n // 3)), ('sim_test', range(n - n // 3, n))]
    elif split == 'cv-predefined':
        k = int(experiment['args']['data-split'].split('=')[1][:-1])
        parts = [(f'sim_fold-{f + 1}', range(f, n, k)) for f in range(k)]
    else:
        parts = [('sim', range(n))]
    for name, rows in parts:
        rows = list(rows)
        px, py = x[rows].copy(), y[rows].copy()
        if experiment['arff'] == 'sparse':
            # The number of rows and columns is derived from the non-zero elements
            for m in (px, py):
                m[-1, -1] = m[-1, -1] or 1
            if types[-1] == 'c' and str(int(px[-1, -1])) not in values[-1]:
                values[-1].append(str(int(px[-1, -1])))
        write_arff(os.path.join(directory, name + '.arff'), px, py, types, experiment, values)
    if experiment['xml']:
        with open(os.path.join(directory, 'sim.xml'), 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n<labels xmlns="http://mulan.sourceforge.net/labels">\n'
                    + ''.join(f'<label name="y{j}"></label>\n' for j in range(y.shape[1])) + '</labels>\n')


def write_parameters(directory, experiment):
    split = experiment['args']['data-split']
    if split.startswith('cross-validation'):
        names = [f'parameters_fold-{f + 1}.csv' for f in range(int(split.split('=')[1][:-1]))]
    else:
        names = ['parameters_overall.csv']
    for k, name in enumerate(names):
        with open(os.path.join(directory, name), 'w', encoding='utf-8') as f:
            f.write(f'max_rules,random_state\n{2 + k},{k + 5}\n')


class Process:
    """A simulated process that executes an experiment. It is executed step by step if `gated` is set."""

    def __init__(self, disk, argv, faults=(), sticky=False, clock=None, gated=False, hook=None):
        self.disk, self.argv = disk, argv
        self.out = os.memfd_create('out')
        self.log = os.memfd_create('log')
        self.done = False
        self.code = None
        gate = None
        if gated:
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            gate = (w1, r2)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                if gated:
                    os.close(r1)
                    os.close(w2)
                code = self._run(faults, sticky, clock, gate, hook)
            finally:
                os._exit(code)
        if gated:
            os.close(w1)
            os.close(r2)
            self.wait_fd, self.go_fd = r1, w2

    def _run(self, faults, sticky, clock, gate, hook):
        import logging
        import traceback
        import simlib
        os.dup2(self.out, 1)
        os.dup2(self.out, 2)
        os.chdir(self.disk.root)
        os.umask(0o022)
        sys.argv = list(self.argv)
        logging.getLogger().handlers.clear()
        if clock:
            simlib.clock(clock)
        simlib.pre.simpre_disk((self.disk.root + '/').encode(), simlib.i32(self.log), simlib.i32(1 if sticky else 0), simlib.i32(1))
        simlib.pre.simpre_disk_guard(simlib.i32(1))
        for at, kind, arg in faults:
            simlib.pre.simpre_disk_fault(simlib.i64(at), simlib.i32(kind), simlib.i64(arg))
        if gate:
            simlib.pre.simpre_disk_gate(simlib.i32(gate[0]), simlib.i32(gate[1]))
        code = 0
        try:
            if hook:
                hook()
            else:
                from mlrl.testbed.main import main
                main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            code = 1
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:  # pylint: disable=broad-except
            pass
        simlib.pre.simpre_disk(b'', simlib.i32(-1), simlib.i32(0), simlib.i32(0))
        return code

    def at_gate(self):
        """Waits until the process has reached the next operation. Returns False if it has ended instead."""
        if not self.done and not os.read(self.wait_fd, 8):
            os.close(self.wait_fd)
            os.close(self.go_fd)
            self.wait()
        return not self.done

    def step(self):
        os.write(self.go_fd, b'x')

    def wait(self):
        if not self.done:
            _, status = os.waitpid(self.pid, 0)
            self.done = True
            self.code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
            self.text = self._read(self.out)
            self.ops = [line.split('\t') for line in self._read(self.log).splitlines()]
        return self

    @staticmethod
    def _read(fd):
        size = os.lseek(fd, 0, os.SEEK_END)
        os.lseek(fd, 0, os.SEEK_SET)
        data = b''
        while len(data) < size:
            part = os.read(fd, size)
            if not part:
                break
            data += part
        os.close(fd)
        return data.decode(errors='replace')

    def num_ops(self):
        return int(self.ops[-1][0]) if self.ops else 0

    def errors(self):
        """Problems that have been reported to the user."""
        return [line for line in self.text.splitlines() if line.startswith('ERROR') or ' ERROR ' in line[:60]]

    def fired(self):
        """The faults that have been injected."""
        result = {}
        for op in self.ops:
            if op[6] in ('crash-before', 'crash-after', 'crash-torn', 'fault', 'short', 'enospc', 'torn'):
                result[op[6]] = result.get(op[6], 0) + 1
        return result

    def fired_kinds(self):
        """The faults that have been injected by their kind."""
        result = {}
        for op in self.ops:
            if op[6] in ('crash-before', 'crash-after', 'crash-torn', 'torn'):
                if op[6] != 'torn':
                    result['crash'] = result.get('crash', 0) + 1
            elif op[6] == 'short':
                result['short_read_or_write'] = result.get('short_read_or_write', 0) + 1
            elif op[6] == 'enospc':
                result['disk_full'] = result.get('disk_full', 0) + 1
            elif op[6] == 'fault':
                name = KIND_NAMES.get(int(op[4]), 'other')
                result[name] = result.get(name, 0) + 1
        return result

    def tail(self, n=400):
        return self.text[-n:]


def interleave(processes, seed, burst):
    """Executes processes that are gated. The seed decides which process performs the next operation on the disk."""
    rng = random.Random(seed)
    picks = []
    waiting = [k for k, p in enumerate(processes) if p.at_gate()]
    current, left = None, 0
    while waiting:
        if current not in waiting or left <= 0:
            current, left = rng.choice(waiting), rng.randrange(1, 2 * burst)
        left -= 1
        picks.append(current)
        processes[current].step()
        if not processes[current].at_gate():
            waiting.remove(current)
    return picks


def power_loss(disk, process, before, seed):
    """Data that has been written, but not synced, may be lost if the machine crashes."""
    rng = random.Random(seed)
    dirty = {}  # path -> True
    renames = []
    for op in process.ops:
        _, name, path, path2, _, _, outcome = op
        if outcome not in ('ok', 'torn', 'short'):
            continue
        if name in ('open-trunc', 'write', 'open-write', 'ftruncate'):
            dirty[path] = True
        elif name == 'fsync':
            dirty.pop(path, None)
        elif name == 'unlink':
            dirty.pop(path, None)
        elif name == 'rename':
            renames.append((path, path2, path in dirty))
            if path in dirty:
                dirty[path2] = dirty.pop(path)
            else:
                dirty.pop(path2, None)
        elif name == 'fsync-dir':
            renames.clear()
    lost = 0
    for path in sorted(dirty):
        full = os.path.join(disk.root, path)
        if not os.path.isfile(full):
            continue
        size = os.path.getsize(full)
        how = rng.randrange(4)
        if how == 0:
            continue
        lost += 1
        keep = rng.randrange(size + 1) if how > 1 else 0
        with open(full, 'r+b') as f:
            f.truncate(keep)
            if how == 3:
                f.truncate(size)  # zeros instead of data
    for source, target, _ in reversed(renames):
        if rng.random() < 0.5:
            a, b = os.path.join(disk.root, source), os.path.join(disk.root, target)
            if os.path.isfile(b) and not os.path.exists(a):
                os.rename(b, a)
                if before.get(target) is not None:
                    with open(b, 'wb') as f:
                        f.write(before[target])
                lost += 1
    return lost


def raw_snapshot(disk):
    result = {}
    for d in ('out', 'models', 'params'):
        base = os.path.join(disk.root, d)
        for name in os.listdir(base):
            path = os.path.join(base, name)
            if os.path.isfile(path):
                with open(path, 'rb') as f:
                    result[d + '/' + name] = f.read()
    return result


class Scratch:

    def __enter__(self):
        base = os.environ.get('SIM_SCRATCH') or '/tmp'
        # The path has the same length in each execution, as it is part of the results of some operations
        self.path = os.path.join(base, 'w%010d' % os.getpid())
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        self.count = 0
        return self

    def empty_disk(self):
        self.count += 1
        disk = Disk.__new__(Disk)
        disk.root = os.path.join(self.path, 'd%d' % self.count)
        disk.experiment = None
        for d in ('data', 'out', 'models', 'params'):
            os.makedirs(os.path.join(disk.root, d))
        return disk

    def disk(self, experiment):
        self.count += 1
        return Disk(os.path.join(self.path, 'd%d' % self.count), experiment)

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def warm_up():
    from props.base import warm_up as base_warm_up
    base_warm_up()
    import logging  # noqa: F401
    import mlrl.testbed.main  # noqa: F401
    import mlrl.testbed.runnables  # noqa: F401
    import mlrl.boosting.runnables  # noqa: F401
    import mlrl.seco.runnables  # noqa: F401
    import encodings.idna  # noqa: F401
    stage = os.environ['PYTHONPATH']
    assert mlrl.testbed.main.__file__.startswith(stage), mlrl.testbed.main.__file__
    # Execute an experiment once in order to import everything that is imported lazily
    rng = random.Random(1)
    with Scratch() as scratch:
        for learner in ('boomer-c', 'seco'):
            e = gen_experiment(rng, 'cv')
            e.update(learner=learner, config={'max_rules': 2})
            e['data'].update(types='n' * e['data']['f'])
            e['args'] = {'data-split': 'cross-validation{num_folds=2}', 'store-predictions': 'true', 'store-rules': 'true',
                         'print-predictions': 'true', 'one-hot-encoding': 'true'}
            disk = scratch.disk(e)
            argv = sys.argv
            import contextlib
            import io
            import logging as log
            try:
                sys.argv = disk.argv()
                with contextlib.redirect_stdout(io.StringIO()):
                    mlrl.testbed.main.main()
            except (Exception, SystemExit):  # pylint: disable=broad-except
                pass
            finally:
                sys.argv = argv
                log.getLogger().handlers.clear()


def difference(expected, actual, only=None):
    """Describes the first difference between two snapshots."""
    for name in sorted(set(expected) | set(actual)):
        if only is not None and not only(name):
            continue
        a, b = expected.get(name), actual.get(name)
        if a != b:
            if a is None:
                return f'{name} exists, but should not: {b[:200]!r}'
            if b is None:
                return f'{name} is missing'
            k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return f'{name} differs at offset {k}: {b[max(0, k - 40):k + 80]!r} instead of {a[max(0, k - 40):k + 80]!r}'
    return None


def shrink_experiment(e):
    import copy
    for key in sorted(e['args']):
        if key in ('data-split', 'prediction-type'):
            continue
        v = copy.deepcopy(e)
        del v['args'][key]
        yield v
    for key, value in (('parameters', None), ('arff', 'dense'), ('xml', True)):
        if e.get(key) != value:
            v = copy.deepcopy(e)
            v[key] = value
            yield v
    if 'num_folds=' in e['args']['data-split'] and 'num_folds=2' not in e['args']['data-split']:
        v = copy.deepcopy(e)
        v['args']['data-split'] = 'cross-validation{num_folds=2}'
        yield v
    for key in sorted(e['config']):
        if key not in ('random_state', 'max_rules'):
            v = copy.deepcopy(e)
            del v['config'][key]
            yield v


DURATION = re.compile(r'\b\d+(\.\d+)? (milli|micro)?(second|minute|hour|day)s?\b.*')


def results_of(process):
    """The results that have been printed, i.e., without progress messages, which depend on time and directories."""
    lines = []
    for line in process.text.replace(process.disk.root, '').splitlines():
        if any(w in line for w in (' in ', 'finished after', 'Training Time', 'Prediction Time', ' model ', ' parameters ', 'Warning', 'warn')):
            continue
        lines.append(line.rstrip())
    return '\n'.join(lines)
