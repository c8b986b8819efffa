"""Decides one property by simulation.

  check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--time S]

Exit codes: 0 the property held on everything explored, 1 violation (a line "VIOLATION property=... replay=..."), 2 or
higher: no verdict (build error, error of the simulator).
"""
import argparse
import atexit
import collections
import copy
import importlib
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))

import build as builder  # noqa: E402
import lab  # noqa: E402


def log(*args):
    print(*args, file=sys.stderr, flush=True)


class HarnessError(Exception):
    pass


# Simulated disks, removed at the end
SCRATCH = tempfile.mkdtemp(prefix='mlrl-sim-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
atexit.register(shutil.rmtree, SCRATCH, True)


class Zygote:
    """A worker process (and the short-lived processes that are forked from it)."""

    def __init__(self, name, stage, flavour):
        env = {
            'PATH': '/opt/vp/venv/bin:/usr/local/bin:/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8',
            'LD_PRELOAD': str(builder.ROOT / 'rt/libsimpre.so'), 'PYTHONPATH': str(stage),
            'SIM_BUILD_DIR': str(builder.ROOT), 'OPENBLAS_NUM_THREADS': '1', 'OPENBLAS_CORETYPE': 'Haswell',
            'SIM_SCRATCH': SCRATCH, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'TZ': 'UTC',
        }
        env.update(flavour)
        self.proc = subprocess.Popen([str(builder.PY), '-W', 'ignore', str(HERE / 'worker.py'), name], env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/')
        self.err = collections.deque(maxlen=50)
        threading.Thread(target=self._drain, daemon=True).start()
        line = self.proc.stdout.readline()
        if not line.startswith(b'{"ready"'):
            time.sleep(0.3)
            raise HarnessError('worker did not start: ' + ''.join(self.err))

    def _drain(self):
        for line in self.proc.stderr:
            self.err.append(line.decode(errors='replace'))

    def run(self, payload, cpu=60, wall=240):
        self.proc.stdin.write(json.dumps({'payload': payload, 'cpu': cpu, 'wall': wall}).encode() + b'\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise HarnessError('worker ended: ' + ''.join(self.err))
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:  # pylint: disable=broad-except
            self.proc.kill()


class Runner:
    """Executes the tasks of a case in worker processes of the required flavours. One per driver thread."""

    def __init__(self, prop, stage):
        self.prop, self.stage, self.zygotes = prop, stage, {}

    def zygote(self, flavour):
        if flavour not in self.zygotes:
            self.zygotes[flavour] = Zygote(self.prop.NAME, self.stage, self.prop.FLAVOURS[flavour])
        return self.zygotes[flavour]

    def run(self, case):
        """Returns (violations, results)."""
        results = []
        for flavour, payload in self.prop.tasks(case):
            result = self.zygote(flavour).run(payload, getattr(self.prop, 'CPU', 60))
            if 'harness_error' in result and 'MemoryError' in result['harness_error']:
                raise HarnessError(result['harness_error'] + '\ncase: ' + json.dumps(case))
            if result.get('died') in ('exit:80', 'exit:70', 'garbled'):
                raise HarnessError(json.dumps(result) + '\ncase: ' + json.dumps(case))
            results.append(result)
        errors = [r['harness_error'] for r in results if 'harness_error' in r]
        if errors:
            # An exception that is raised by the code under test in a place where this must not happen
            return [{'class': 'unexpected-exception', 'detail': e[-800:]} for e in errors], results
        return self.prop.judge(case, results), results

    def close(self):
        for z in self.zygotes.values():
            z.close()
        self.zygotes = {}


def died_violation(result):
    """Translates the death of a simulated process into a violation."""
    died = result['died']
    names = {'exit:78': 'deadlock', 'exit:79': 'no-progress', 'cpu-limit': 'hang', 'wall': 'hang'}
    tail = result.get('stderr', '')[-600:]
    return {'class': names.get(died, 'died-' + died), 'detail': f'the process ended ({died}): {tail}'}


def default_judge(case, results):
    violations = []
    for r in results:
        if 'died' in r:
            violations.append(died_violation(r))
        else:
            violations.extend(r['ok'].get('violations', []))
    return violations


def fingerprint(results):
    return lab.case_key([r.get('ok', {}).get('fingerprint', r.get('died')) for r in results])


def minimise(prop, runner, case, vclass, budget):
    """Greedy minimisation: keeps a simpler case if the same class of violation persists."""
    deadline = time.time() + budget
    tried = 0

    def fails(candidate):
        nonlocal tried
        tried += 1
        try:
            violations, _ = runner.run(candidate)
        except HarnessError:
            runner.close()
            return False
        return any(v['class'] == vclass for v in violations)

    improved = True
    while improved and time.time() < deadline:
        improved = False
        for candidate in prop.shrink(case):
            if time.time() > deadline:
                break
            if fails(candidate):
                case = candidate
                improved = True
                break
    # Schedule: replace the strategy by an explicit list of context switches and drop those that are not needed
    if hasattr(prop, 'traced') and time.time() < deadline + 20:
        deadline = max(deadline, time.time() + budget / 2)
        try:
            traced = prop.traced(case, runner)
        except HarnessError:
            traced = None
        if traced is not None and fails(traced[0]):
            case, get, put = traced
            trace = get(case)
            size = max(1, len(trace) // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(trace) and time.time() < deadline:
                    candidate = put(copy.deepcopy(case), trace[:i] + trace[i + size:])
                    if fails(candidate):
                        case, trace = candidate, trace[:i] + trace[i + size:]
                    else:
                        i += size
                size //= 2
    return case, tried


def known_findings(prop_id):
    path = VERIF / 'known_findings.json'
    entries = json.loads(path.read_text())['findings'] if path.exists() else []
    return [e for e in entries if e['property'] == prop_id and e['status'] == 'known']


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--cases', type=int)
    parser.add_argument('--time', type=float)
    parser.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    parser.add_argument('--keep-going', action='store_true', help='report all violations without minimising')
    parser.add_argument('--found', default='/tmp/found.jsonl')
    parser.add_argument('--filter', help='a Python expression over the case c and its configuration k')
    parser.add_argument('--no-build', action='store_true')
    args = parser.parse_args()
    prop = importlib.import_module('props.' + args.property.lower())
    for attr, default in (('FLAVOURS', [{}]), ('tasks', lambda c: [(0, c)]), ('judge', default_judge),
                          ('shrink', lambda c: iter(())), ('SUBPROJECTS', ('common', 'boosting', 'seco')),
                          ('VARIANT', 'sched')):
        if not hasattr(prop, attr):
            setattr(prop, attr, default)
    start = time.time()
    if args.no_build:
        stage = builder.ROOT / prop.VARIANT / 'stage'
    else:
        try:
            stage = builder.build(prop.VARIANT, prop.SUBPROJECTS, log=log)
        except builder.BuildError as e:
            log('BUILD-ERROR', e)
            return 3
    build_s = time.time() - start

    if args.replay:
        replay = json.loads(Path(args.replay).read_text())
        runner = Runner(prop, stage)
        violations, results = runner.run(replay['case'])
        runner.close()
        for v in violations:
            print(f"{v['class']}: {v['detail']}")
        print('fingerprint', fingerprint(results), 'recorded', replay.get('fingerprint'))
        if violations:
            print(f'VIOLATION property={prop.ID} replay={args.replay}')
            return 1
        print('not reproduced')
        return 0

    count = args.cases or prop.COUNT[args.tier]
    limit = args.time or prop.TIME[args.tier]
    log(f'{prop.ID} tier={args.tier} seed={args.seed} cases<={count} time<={limit}s')
    explore_start = time.time()
    deadline = explore_start + limit
    todo = queue.Queue()
    lock = threading.Lock()
    stop = threading.Event()
    state = {'next': 0}
    found, errors = [], []
    stats = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    maxima = {}
    interleavings, nontrivial, samples = set(), set(), []
    evaluations = 0
    determinism = {'reruns': 0, 'mismatches': 0}
    known = known_findings(prop.ID)
    known_seen = set()
    unreproduced = []

    def make_case(i):
        case = prop.gen(random.Random(f'{args.seed}/{prop.ID}/{i}'), i)
        if args.filter:  # development aid: restricts the search to cases with certain characteristics
            n = 0
            while not eval(args.filter, {'c': case, 'k': case.get('config', {})}):  # pylint: disable=eval-used
                n += 1
                case = prop.gen(random.Random(f'{args.seed}/{prop.ID}/{i}/{n}'), i)
        return case

    def thread():
        nonlocal evaluations
        runner = Runner(prop, stage)
        try:
            while not stop.is_set() and time.time() < deadline:
                with lock:
                    i = state['next']
                    if i >= count:
                        break
                    state['next'] += 1
                case = make_case(i)
                violations, results = runner.run(case)
                fp = fingerprint(results)
                rerun_fp = None
                if i % 199 == 7 and not violations:
                    runner.close()  # a fresh process
                    _, again = runner.run(case)
                    rerun_fp = fingerprint(again)
                with lock:
                    if rerun_fp is not None:
                        determinism['reruns'] += 1
                        if rerun_fp != fp:
                            determinism['mismatches'] += 1
                            log('DETERMINISM: case', i, 'differs between two executions', json.dumps(case))
                    evaluations += 1
                    for r in results:
                        ok = r.get('ok')
                        if not ok:
                            continue
                        for k, v in ok.get('stats', {}).items():
                            if k.startswith('max_'):
                                maxima[k] = max(maxima.get(k, 0), v)
                            else:
                                stats[k] += v
                        faults.update(ok.get('faults', {}))
                        probes.update(ok.get('probes', {}))
                        interleavings.update(ok.get('interleavings', []))
                        key = ok.get('nontrivial')
                        if key:
                            nontrivial.add(key)
                            if len(samples) < 3:
                                samples.append({'index': i, 'case': case, 'outcome': ok.get('outcome')})
                    for v in violations:
                        match = next((k for k in known if k['signature'] == v.get('signature')), None)
                        if match:
                            known_seen.add(match['signature'])
                            continue
                        found.append((i, case, v))
                        if not args.keep_going:
                            stop.set()
                        else:
                            log('FOUND', i, v['class'], v['detail'][:200])
                            with open(args.found, 'a') as fh:
                                fh.write(json.dumps({'index': i, 'v': v, 'case': case}) + '\n')
        except HarnessError as e:
            with lock:
                errors.append(str(e))
                stop.set()
        finally:
            runner.close()

    status = 0
    violation_count = 0
    replay_path = None
    while True:
        stop.clear()
        before = len(found)
        threads = [threading.Thread(target=thread) for _ in range(args.jobs)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            for e in errors[:2]:
                log('HARNESS-ERROR', e)
            status = 2
            break
        fresh = sorted(found[before:], key=lambda f: f[0])
        if not fresh or args.keep_going:
            violation_count += len(fresh)
            status = 1 if fresh else status
            break
        # Gate: a violation is only reported if it can be reproduced in fresh processes. One that does not show up each
        # time (because the code under test is not deterministic) must at least be seen two more times.
        confirmed = None
        for i, case, v in fresh:
            runner = Runner(prop, stage)
            seen = []
            for attempt in range(6):
                try:
                    violations, _ = runner.run(case)
                    again = next((w for w in violations if w['class'] == v['class']), violations[0] if violations else None)
                    if again and not any(k['signature'] == again.get('signature') for k in known):
                        seen.append(again)
                except HarnessError as e:
                    log('HARNESS-ERROR while confirming', e)
                runner.close()
                if len(seen) == 2:
                    break
            if len(seen) == 2:
                confirmed = (i, case, v if any(w['class'] == v['class'] for w in seen) else seen[0])
                break
            unreproduced.append({'index': i, 'class': v['class'], 'detail': v['detail'][:500], 'case': case})
            log(f"violation of case {i} was not reproduced: {v['class']} {v['detail'][:500]}")
        if confirmed is None:
            if state['next'] >= count or time.time() >= deadline:
                break
            continue
        i, case, v = confirmed
        log(f"violation in case {i}: {v['class']}: {v['detail'][:1500]}")
        runner = Runner(prop, stage)
        small, tried = minimise(prop, runner, case, v['class'], 45 if args.tier == 'quick' else 120)
        runner.close()
        violations, results = [], []
        for candidate in (small, small, case, case):
            try:
                violations, results = runner.run(candidate)
            except HarnessError:
                continue
            finally:
                runner.close()
            small = candidate
            if any(w['class'] == v['class'] for w in violations):
                break
        v = next((w for w in violations if w['class'] == v['class']), v)
        (VERIF / 'replays').mkdir(exist_ok=True)
        replay_path = VERIF / 'replays' / f'{prop.ID}-{args.seed}-{i}.json'
        replay_path.write_text(json.dumps({
            'property': prop.ID, 'seed': args.seed, 'index': i, 'class': v['class'], 'detail': v['detail'],
            'fingerprint': fingerprint(results), 'minimisation_attempts': tried, 'case': small, 'original_case': case,
            'replay_cmd': f'python3 sim/check.py {prop.ID} --replay {replay_path}'}, indent=1))
        log(f"minimised ({tried} attempts): {v['class']}: {v['detail'][:1500]}")
        violation_count = 1
        status = 1
        break

    wall = time.time() - start
    explore = max(1e-6, time.time() - explore_start)
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(nontrivial),
        'rule': prop.RULE,
        'samples': samples,
        'runs_per_hour': round(evaluations / explore * 3600),
        'simulated_executions': stats.get('executions', evaluations),
        'distinct_interleavings': len(interleavings),
        'interleaving_measure': 'distinct 64-bit hashes over all scheduling decisions (region, step, thread) of an execution',
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'counters': {**dict(sorted(stats.items())), **maxima},
        'determinism_reruns': determinism['reruns'],
        'determinism_mismatches': determinism['mismatches'],
        'unreproduced': unreproduced[:5],
        'components': prop.COMPONENTS,
        'build_s': round(build_s, 1),
        'seeds': f'cases 0..{state["next"] - 1} of VERIF_SEED={args.seed}',
    }
    evidence = {
        'property': prop.ID, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': getattr(prop, 'ASSUMPTIONS', []), 'wall_s': round(wall, 1), 'violations': violation_count,
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{prop.ID}.json').write_text(json.dumps(evidence, indent=1))
    for entry in known:
        print(f"KNOWN-FINDING: property={prop.ID} {entry['what']}")
    log(f'{prop.ID}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {len(interleavings)} interleavings, '
        f'{wall:.1f} s (build {build_s:.1f} s)', dict(probes), dict(faults))
    if status == 1 and replay_path is not None:
        print(f'VIOLATION property={prop.ID} replay={replay_path}', flush=True)
    return status


if __name__ == '__main__':
    sys.exit(main())
