"""Random histories of operations on several learners and incremental predictors that live in the same process. The oracle
is what the same operations result in if they are executed in isolation."""
import copy

import lab
from props.base import merge_stats, merge_faults

KINDS = ['binary', 'scores', 'proba']


def gen_spec(rng, learners=lab.LEARNERS, focus=()):
    spec = lab.gen_base(rng, learners, focus=focus)
    data = spec.pop('data')
    data['n'] = min(data['n'], 20)
    second = lab.gen_data(rng, spec['learner'])
    second['n'] = min(second['n'], 20)
    if rng.random() < 0.5:
        second = dict(data, seed=second['seed'])
    spec['datasets'] = [data, second]
    return spec


def gen_history(rng, weights, length, num_specs):
    """An operation is a list: name and arguments, indices are interpreted modulo the number of available objects."""
    names = sorted(weights)
    ops = []
    for _ in range(length):
        name = rng.choices(names, [weights[n] for n in names])[0]
        ops.append([name, rng.randrange(1000), rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)])
    return ops


def incremental(learner, kind, xq, kwargs, max_rules):
    kw = dict(kwargs)
    if max_rules:
        kw['max_rules'] = max_rules
    if kind == 'proba':
        if not hasattr(learner, 'predict_proba_incrementally'):
            return lab.Failed(AttributeError('predict_proba_incrementally'))
        return lab.attempt(learner.predict_proba_incrementally, xq, **kw)
    if kind == 'scores':
        return lab.attempt(learner.predict_incrementally, xq, predict_scores=True, **kw)
    return lab.attempt(learner.predict_incrementally, xq, **kw)


class World:

    def __init__(self, case):
        import numpy as np
        self.np = np
        self.case = case
        self.expected = {}
        self.used_rules = {}
        self.inputs = {}
        self.violations = []
        self.counts = {}
        self.outputs = []  # (array, digest at the time it was returned, description)
        self.trace = []
        for s, spec in enumerate(case['specs']):
            for d, data in enumerate(spec['datasets']):
                self.inputs[s, d] = lab.make_data(data, spec['learner'])

    def fresh_inputs(self, s, d):
        x, y, xq, types, kwargs = self.inputs[s, d]
        return copy.deepcopy(x), copy.deepcopy(y), copy.deepcopy(xq), types, dict(kwargs)

    @staticmethod
    def other_query(xq):
        """Another matrix of the same shape."""
        if hasattr(xq, 'strides'):
            return xq[::-1].copy()
        other = xq.copy()
        other.data = other.data[::-1].copy()
        return other

    def represent(self, m, seed):
        """Chooses one of several representations of the same values."""
        if not self.case.get('requery'):
            return m
        return lab.relayout(m, ['C', 'F', 'strided'][seed % 3], ['same', 'same', 'unsorted', 'int64'][seed // 3 % 4],
                            seed // 12 % 2 == 1)

    def compute_expected(self):
        """Executes everything in isolation."""
        for s, spec in enumerate(self.case['specs']):
            for d in range(len(spec['datasets'])):
                x, y, xq, types, kwargs = self.fresh_inputs(s, d)
                learner = lab.fit(spec, x, y, types, kwargs)
                table = {'model': lab.model_digest(learner)}
                if not isinstance(learner, lab.Failed):
                    used = learner.model_.get_num_used_rules()
                    self.used_rules[s, d] = used
                    for kind in KINDS:
                        table[kind, 0] = lab.digest(lab.predict(learner, kind, xq, kwargs))
                        for m in range(1, used + 3):
                            table[kind, m] = lab.digest(lab.predict(learner, kind, xq, kwargs, m))
                        if self.case.get('requery'):
                            table[kind, 'other'] = lab.digest(lab.predict(learner, kind, self.other_query(xq), kwargs))
                self.expected[s, d] = table

    def violation(self, vclass, detail):
        if len(self.violations) < 5:
            self.violations.append({'class': vclass, 'detail': detail + f' (after {len(self.trace)} operations: '
                                    + ' '.join(self.trace[-12:]) + ')'})

    def remember(self, array, what):
        self.outputs.append((array, lab.digest(array), what))

    def run(self):
        ops = self.case['ops']
        specs = self.case['specs']
        live = []  # {'s', 'd', 'learner', 'failed'}
        predictors = []
        for op, a, b, c, e in ops:
            self.counts[op] = self.counts.get(op, 0) + 1
            independent = op in ('gc', 'step', 'close')
            if op == 'new' or (not independent and not live):
                s = a % len(specs)
                spec = specs[s]
                learner = lab.attempt(lab.make_learner, spec, self.inputs[s, 0][3], self.case['team'])
                live.append({'s': s, 'd': None, 'learner': learner})
                self.trace.append(f'new{len(live) - 1}')
                op = 'fit'
                a = len(live) - 1
            item = learner = spec = s = d = None
            if not independent:
                item = live[a % len(live)]
                s, d = item['s'], item['d']
                spec = specs[s]
                learner = item['learner']
                if isinstance(learner, lab.Failed):
                    live.remove(item)
                    continue
            if op == 'fit':
                d = b % len(spec['datasets'])
                x, y, xq, types, kwargs = self.fresh_inputs(s, d)
                x, y = self.represent(x, a + b + c), self.represent(y, a + b + e)
                before = (lab.raw_digest(x), lab.raw_digest(y))
                lab.set_types(learner, types)
                result = lab.attempt(learner.fit, x, y, **kwargs)
                self.trace.append(f'fit{a % len(live)}.{d}')
                if (lab.raw_digest(x), lab.raw_digest(y)) != before:
                    self.violation('input-modified', 'training modified the given arrays')
                expected = self.expected[s, d]['model']
                actual = result.key() if isinstance(result, lab.Failed) else lab.model_digest(learner)
                if isinstance(result, lab.Failed) and expected == actual:
                    live.remove(item)
                    continue
                if isinstance(result, lab.Failed) or actual != expected:
                    self.violation('different-model', f'fit: model {actual} {result.text() if isinstance(result, lab.Failed) else ""}, '
                                   f'in isolation {expected}')
                    live.remove(item)
                    continue
                item['d'] = d
                if c % 2:
                    # The caller reuses its arrays
                    for m in (x, y):
                        values = m if isinstance(m, self.np.ndarray) else getattr(m, 'data', None)
                        if isinstance(values, self.np.ndarray) and values.dtype != object:
                            values[...] = 1
                    self.counts['overwrite_inputs'] = self.counts.get('overwrite_inputs', 0) + 1
            elif op == 'check_model':
                self.trace.append(f'check{a % len(live)}')
                if d is not None and lab.model_digest(learner) != self.expected[s, d]['model']:
                    self.violation('different-model', 'the model has changed')
            elif op == 'predict' and d is not None:
                kind = KINDS[b % 3]
                m = (0 if c % 2 else 1 + e % (self.used_rules[s, d] + 2)) if self.case.get('prefixes') else 0
                x, y, xq, types, kwargs = self.fresh_inputs(s, d)
                xq = self.represent(xq, a + 7 * b + 3 * c + e)
                before = lab.raw_digest(xq)
                result = lab.predict(learner, kind, xq, kwargs, m)
                self.trace.append(f'{kind}{a % len(live)}@{m}')
                if lab.raw_digest(xq) != before:
                    self.violation('input-modified', 'prediction modified the given array')
                if lab.digest(result) != self.expected[s, d][kind, m]:
                    self.violation('different-predictions', f'{kind} predictions using {m} rules: {lab.describe(result)}')
                if self.case.get('requery') and e % 2:
                    # The caller queries other examples, possibly using the same array again
                    other = self.other_query(self.fresh_inputs(s, d)[2])
                    if e % 3 == 0:
                        xq = self.represent(other, b + c)
                    elif isinstance(xq, self.np.ndarray):
                        xq[...] = other
                    else:
                        xq.data[...] = self.represent(other, a + 7 * b + 3 * c + e).data
                    if lab.digest(lab.predict(learner, kind, xq, kwargs)) != self.expected[s, d][kind, 'other']:
                        self.violation('different-predictions', f'{kind} predictions for other examples')
                    self.counts['requery'] = self.counts.get('requery', 0) + 1
                if not isinstance(result, lab.Failed):
                    self.remember(result, f'{kind} predictions')
            elif op == 'refused' and d is not None:
                # An operation that is not possible must not have any side effects
                import numpy as np
                self.trace.append(f'refused{a % len(live)}')
                bad = np.zeros((2, self.inputs[s, d][0].shape[1] + 1 + b % 2), dtype=np.float32)
                lab.attempt(learner.predict, bad)
            elif op == 'bad_fit':
                # Training fails, afterwards the estimator may be trained again
                self.trace.append(f'bad_fit{a % len(live)}')
                x, y, xq, types, kwargs = self.fresh_inputs(s, b % len(spec['datasets']))
                if c % 4 == 0:
                    x = x[:-1]
                elif c % 4 == 1:
                    y = y[:-1]
                elif c % 4 == 2:
                    learner.set_params(random_state=-1 - e % 3)
                else:
                    learner.set_params(rule_induction='invalid{' + 'x' * (e % 3))
                previous = learner.get_params(deep=False)
                if c % 4 > 1:
                    original = lab.make_learner(spec, types, self.case['team']).get_params(deep=False)
                    result = lab.attempt(learner.fit, x, y, **kwargs)
                    if learner.get_params(deep=False) != previous:
                        self.violation('parameters-modified', 'training modified the parameters of the estimator')
                    learner.set_params(**{k: original[k] for k in ('random_state', 'rule_induction')})
                else:
                    result = lab.attempt(learner.fit, x, y, **kwargs)
                if isinstance(result, lab.Failed):
                    item['d'] = None
                else:
                    live.remove(item)
            elif op == 'pickle' and d is not None:
                import pickle
                self.trace.append(f'pickle{a % len(live)}')
                data = pickle.dumps(learner, protocol=2 + b % 4)
                if c % 2:
                    item['learner'] = pickle.loads(data)
                else:
                    live.append(dict(item, learner=pickle.loads(data)))
            elif op == 'deepcopy' and d is not None:
                self.trace.append(f'deepcopy{a % len(live)}')
                live.append(dict(item, learner=copy.deepcopy(learner)))
            elif op == 'clone':
                from sklearn.base import clone
                self.trace.append(f'clone{a % len(live)}')
                live.append({'s': s, 'd': None, 'learner': lab.attempt(clone, learner)})
            elif op == 'reconfigure':
                # The learner is given the parameters (and becomes a copy) of another one of the same type
                others = [o for o in live if specs[o['s']]['learner'] == spec['learner'] and not isinstance(o['learner'], lab.Failed)]
                other = others[b % len(others)]
                self.trace.append(f'reconfigure{a % len(live)}')
                learner.set_params(**other['learner'].get_params(deep=False))
                item['s'], item['d'] = other['s'], None
            elif op == 'discard':
                self.trace.append(f'discard{a % len(live)}')
                live.remove(item)
                item = learner = None
            elif op == 'open' and d is not None:
                kind = KINDS[b % 3]
                m = 0 if c % 2 else 1 + e % (self.used_rules[s, d] + 2)
                x, y, xq, types, kwargs = self.fresh_inputs(s, d)
                predictor = incremental(learner, kind, xq, kwargs, m)
                self.trace.append(f'open{len(predictors)}:{kind}@{m}')
                reference = lab.predict(learner, kind, xq, kwargs, m)
                if isinstance(predictor, lab.Failed):
                    if not isinstance(reference, lab.Failed) and kind != 'proba':
                        self.violation('incremental-raised', f'{kind}: {predictor.text()}')
                    self.counts['refused:' + kind] = self.counts.get('refused:' + kind, 0) + 1
                else:
                    total = self.used_rules[s, d]
                    total = min(total, m) if m else total
                    predictors.append({'p': predictor, 's': s, 'd': d, 'kind': kind, 'total': total, 'done': 0})
                    self.check_counts(predictors[-1])
            elif op == 'step' and predictors:
                k = b % len(predictors)
                p = predictors[k]
                step = [1, 1, 2, 3, 5, 100][c % 6]
                remaining = p['total'] - p['done']
                if remaining == 0 and e % 3:
                    continue
                result = lab.attempt(p['p'].apply_next, step)
                self.trace.append(f'step{k}+{step}')
                self.counts['steps:' + p['kind']] = self.counts.get('steps:' + p['kind'], 0) + 1
                p['done'] += min(step, remaining)
                if p['done'] == 0:
                    continue
                expected = self.expected[p['s'], p['d']][p['kind'], p['done']]
                if lab.digest(result) != expected:
                    self.violation('different-incremental-predictions',
                                   f'{p["kind"]} predictions after using {p["done"]} of {p["total"]} rules incrementally '
                                   f'differ from those that are obtained at once: {lab.describe(result)}')
                if not isinstance(result, lab.Failed):
                    self.remember(result, f'incremental {p["kind"]} predictions')
                self.check_counts(p)
            elif op == 'close' and predictors:
                self.trace.append(f'close{b % len(predictors)}')
                del predictors[b % len(predictors)]
            elif op == 'gc':
                import gc
                self.trace.append('gc')
                gc.collect()
            learner = item = None
            if len(self.outputs) > 40:
                self.check_outputs()
                self.outputs = self.outputs[-20:]
        self.check_outputs()
        for item in live:
            if item['d'] is not None and not isinstance(item['learner'], lab.Failed):
                if lab.model_digest(item['learner']) != self.expected[item['s'], item['d']]['model']:
                    self.violation('different-model', 'a model has changed in the course of the history')

    def check_counts(self, p):
        remaining = p['total'] - p['done']
        n, h = p['p'].get_num_next(), p['p'].has_next()
        if n != remaining or bool(h) != (remaining > 0):
            self.violation('wrong-number-of-rules', f'get_num_next() is {n} and has_next() is {h}, but {p["done"]} of '
                           f'{p["total"]} rules have been used')

    def check_outputs(self):
        for array, digest, what in self.outputs:
            if lab.digest(array) != digest:
                self.violation('output-changed', f'{what} that have been returned earlier have changed')


def execute(case):
    import simlib
    world = World(case)
    simlib.heap({'fill': 1, 'salt': 0})
    world.compute_expected()
    simlib.heap(case['heap'])
    simlib.sched_begin(case['sim'])
    world.run()
    s = simlib.sched_end()
    simlib.heap({})
    out = {'violations': world.violations, 'stats': {'ops_' + k: v for k, v in world.counts.items()}, 'faults': {},
           'probes': {}, 'interleavings': [s['scheduleHash']],
           'fingerprint': [s['scheduleHash'], world.trace, sorted(str(v) for v in world.expected.values())]}
    if case.get('record') == 0:
        out['trace'] = simlib.sched_trace()
    merge_stats(out['stats'], s)
    merge_faults(out['faults'], s)
    for kind in ('overwrite_inputs', 'discard', 'gc', 'refused', 'pickle', 'close'):
        if world.counts.get(kind):
            out['faults'][kind] = world.counts[kind]
    if any(v for v in world.used_rules.values()) and len(world.trace) > 3:
        out['nontrivial'] = lab.case_key(case)
    out['outcome'] = world.trace[:40]
    return out


def shrink(case):
    ops = case['ops']
    size = len(ops) // 2
    while size >= 1:
        for start in range(0, len(ops), size):
            rest = ops[:start] + ops[start + size:]
            if rest:
                v = copy.deepcopy(case)
                v['ops'] = rest
                yield v
        size //= 2
    if len(case['specs']) > 1:
        for k in range(len(case['specs'])):
            v = copy.deepcopy(case)
            v['specs'] = [case['specs'][k]]
            yield v
    if case['team']:
        v = copy.deepcopy(case)
        v['team'] = 0
        yield v
    for k, spec in enumerate(case['specs']):
        if len(spec['datasets']) > 1:
            for d in spec['datasets']:
                v = copy.deepcopy(case)
                v['specs'][k]['datasets'] = [d]
                yield v
        for i, data in enumerate(spec['datasets']):
            for candidate in lab.shrink_base({'data': data, 'config': spec['config'], 'learner': spec['learner']}):
                v = copy.deepcopy(case)
                v['specs'][k]['config'] = candidate['config']
                v['specs'][k]['datasets'][i] = candidate['data']
                yield v
