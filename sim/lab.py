"""The workload: random data sets, learners and configurations (generation is pure Python and runs in the driver, the
rest runs in the simulated process)."""
import hashlib
import json
import random

# ---------------------------------------------------------------------------------------------------------- generation


def _opt(rng, name, options):
    """Formats a parameter value with a random subset of the given options."""
    chosen = {k: rng.choice(v) for k, v in options.items() if rng.random() < 0.5}
    if not chosen:
        return name
    return name + '{' + ','.join(f'{k}={v}' for k, v in sorted(chosen.items())) + '}'


def gen_data(rng, learner, big=False):
    n = rng.choice([2, 3, 4, 6, 8, 10, 12, 15, 20, 25, 30, 40] + ([60, 90] if big else []))
    f = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 10])
    l = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, rng.choice([8, 12, 24])])
    style = rng.random()
    if style < 0.4:
        types = 'n' * f
    elif style < 0.5:
        types = rng.choice('oc') * f
    else:
        types = ''.join(rng.choice('nnoc') for _ in range(f))
    data = {
        'seed': rng.randrange(1, 2**31), 'n': n, 'f': f, 'l': l, 'types': types,
        'levels': rng.choice([2, 3, 5, 10, 1000]),
        'zeros': rng.choice([0.0, 0.0, 0.3, 0.7, 0.95]),
        'missing': rng.choice([0.0, 0.0, 0.0, 0.1, 0.4]),
        'xformat': rng.choice(['dense', 'dense', 'csr', 'csc']),
        'sparse_value': rng.choice([0.0, 0.0, 0.0, 1.0]),
        'ydensity': rng.choice([0.1, 0.3, 0.5, 0.5, 0.8]),
        'yformat': rng.choice(['dense', 'dense', 'csr', 'lil']),
        'signal': rng.choice([0.0, 0.5, 0.9]),
        'nq': rng.choice([1, 2, 3, 5, 9, 16]),
        'near': rng.random() < 0.5,
    }
    if rng.random() < 0.15:  # categories may be represented by any integers
        data['categories'] = rng.choice([[-1, 0], [1, -3], [1000, 0], [300, -1], [-70001, 2]])
    if rng.random() < 0.1:  # extremely large or small numerical values
        data['scale'] = rng.choice([1e-38, 1e-30, 1e-12, 1e6, 1e30, 3e37])
    if rng.random() < 0.15:  # elements equal to the sparse value may be stored explicitly
        data['explicit'] = rng.choice([0.05, 0.5, 1.0])
    if rng.random() < 0.04:  # more examples than fit into any block or word
        data['n'] = rng.choice([65, 100, 130])
    if rng.random() < 0.04:
        data['nq'] = rng.choice([33, 65])
    return data


LOSSES = [a + '-' + b for a in ('logistic', 'logistic', 'squared-hinge', 'squared-error')
          for b in ('decomposable', 'non-decomposable')]

SAMPLE_SIZES = [0.2, 0.5, 0.66, 0.9]

# The options a configuration may set explicitly (repeated if they affect large parts of the algorithm)
OPTIONS = [
    'head_type', 'head_type', 'loss', 'loss', 'rule_induction',
    'feature_format', 'output_format', 'prediction_format', 'rule_induction', 'output_sampling',
    'instance_sampling', 'feature_sampling', 'holdout', 'feature_binning', 'rule_pruning',
    'sequential_post_optimization', 'head_type', 'lift_function', 'heuristic', 'pruning_heuristic',
    'statistic_format', 'default_rule', 'global_pruning', 'l1_regularization_weight',
    'l2_regularization_weight', 'loss', 'label_binning', 'marginal_probability_calibration',
    'joint_probability_calibration', 'binary_predictor', 'probability_predictor',
]


def gen_config(rng, learner, max_rules=None, focus=()):
    """A random configuration (with a focus on the given options). Every option is left at its default with a probability that varies between cases."""
    p = rng.choice([0.15, 0.3, 0.5, 0.8])
    # A few options are always set, such that each combination of two or three of them is reached often enough
    forced = rng.sample(OPTIONS, rng.choice([0, 2, 3, 4])) if rng.random() < 0.8 else []
    forced += [name for name in focus if rng.random() < 0.5]
    on = lambda name, q=1.0: name in forced or rng.random() < p * q
    c = {'random_state': rng.randrange(1, 2**31)}
    c['max_rules'] = max_rules or rng.choice([1, 2, 3, 5, 8, 12, 20])
    if on('feature_format'):
        c['feature_format'] = rng.choice(['sparse', 'dense', 'auto'])
    if on('output_format'):
        c['output_format'] = rng.choice(['sparse', 'dense', 'auto'])
    if on('prediction_format'):
        c['prediction_format'] = rng.choice(['sparse', 'dense', 'auto'])
    if on('rule_induction'):
        greedy = {'min_coverage': [1, 2, 3], 'max_conditions': [0, 1, 2, 4], 'max_head_refinements': [1, 2, 0],
                  'recalculate_predictions': ['true', 'false'], 'min_support': [0.0, 0.05, 0.2]}
        if rng.random() < 0.6:
            c['rule_induction'] = _opt(rng, 'top-down-greedy', greedy)
        else:
            beam = dict(greedy)
            beam.update({'beam_width': [2, 3, 4], 'resample_features': ['true', 'false']})
            beam['max_conditions'] = [0, 2, 4]
            c['rule_induction'] = _opt(rng, 'top-down-beam-search', beam)
    if on('output_sampling'):
        c['output_sampling'] = rng.choice([
            'round-robin', _opt(rng, 'without-replacement', {'sample_size': SAMPLE_SIZES}), 'none'])
    if on('instance_sampling'):
        c['instance_sampling'] = rng.choice([
            _opt(rng, 'with-replacement', {'sample_size': SAMPLE_SIZES}),
            _opt(rng, 'without-replacement', {'sample_size': SAMPLE_SIZES}),
            _opt(rng, 'stratified-output-wise', {'sample_size': SAMPLE_SIZES}),
            _opt(rng, 'stratified-example-wise', {'sample_size': SAMPLE_SIZES}), 'none'])
        if learner == 'boomer-r' and 'stratified' in c['instance_sampling']:
            c['instance_sampling'] = _opt(rng, 'with-replacement', {'sample_size': SAMPLE_SIZES})
    if on('feature_sampling'):
        c['feature_sampling'] = rng.choice([
            _opt(rng, 'without-replacement', {'sample_size': SAMPLE_SIZES, 'num_retained': [0, 1, 2]}), 'none'])
    holdout = ['random', 'stratified-output-wise', 'stratified-example-wise']
    if learner == 'boomer-r':
        holdout = ['random']
    if on('holdout'):
        c['holdout'] = _opt(rng, rng.choice(holdout), {'holdout_set_size': [0.2, 0.33, 0.5]})
    if on('feature_binning'):
        c['feature_binning'] = _opt(rng, rng.choice(['equal-width', 'equal-frequency']),
                                    {'bin_ratio': [0.1, 0.33, 0.6], 'min_bins': [2, 3], 'max_bins': [3, 5, 0]})
    if on('rule_pruning'):
        c['rule_pruning'] = rng.choice(['irep', 'irep', 'none'])
        if c['rule_pruning'] == 'irep' and 'instance_sampling' not in c and rng.random() < 0.8:
            c['instance_sampling'] = _opt(rng, rng.choice(['with-replacement', 'without-replacement']),
                                          {'sample_size': SAMPLE_SIZES})
    if on('sequential_post_optimization', 0.6):
        c['sequential_post_optimization'] = _opt(
            rng, 'true', {'num_iterations': [1, 2, 3], 'refine_heads': ['true', 'false'],
                          'resample_features': ['true', 'false']})
    # Known finding (see DESIGN.md): beam searches on binned features access memory out of bounds
    if 'beam' in c.get('rule_induction', ''):
        c.pop('feature_binning', None)
    if learner == 'seco':
        if on('head_type'):
            c['head_type'] = rng.choice(['single', 'partial'])
        if on('lift_function'):
            c['lift_function'] = rng.choice([
                'none', _opt(rng, 'peak', {'peak_label': [0, 1, 2], 'max_lift': [1.0, 1.08, 1.5],
                                           'curvature': [0.5, 1.0, 2.0]}), _opt(rng, 'kln', {'k': [0.1, 0.5, 2.0]})])
        heuristics = ['accuracy', 'precision', 'recall', 'laplace', 'weighted-relative-accuracy',
                      _opt(rng, 'f-measure', {'beta': [0.0, 0.5, 2.0]}), _opt(rng, 'm-estimate', {'m': [0.0, 2.0, 22.4]})]
        if on('heuristic'):
            c['heuristic'] = rng.choice(heuristics)
        if on('pruning_heuristic'):
            c['pruning_heuristic'] = rng.choice(heuristics)
        return c
    # Boosting
    c['shrinkage'] = rng.choice([0.3, 0.3, 0.1, 1.0])
    if on('statistic_format'):
        c['statistic_format'] = rng.choice(['dense', 'sparse', 'auto'])
    if on('default_rule', 0.6):
        c['default_rule'] = rng.choice(['true', 'false', 'auto'])
    if on('global_pruning'):
        if rng.random() < 0.5:
            c['global_pruning'] = _opt(rng, 'post-pruning',
                                       {'use_holdout_set': ['true', 'false'], 'remove_unused_rules': ['true', 'false'],
                                        'min_rules': [1, 2, 4], 'interval': [1, 2, 3]})
        else:
            c['global_pruning'] = _opt(rng, 'pre-pruning',
                                       {'use_holdout_set': ['true', 'false'], 'remove_unused_rules': ['true', 'false'],
                                        'min_rules': [1, 2, 4], 'aggregation': ['min', 'max', 'avg'],
                                        'update_interval': [1, 2], 'stop_interval': [1, 2, 4], 'num_past': [1, 2, 4],
                                        'num_recent': [1, 2, 4], 'min_improvement': [0.0, 0.005, 0.1]})
            if 'update_interval=2' in c['global_pruning']:  # the default stop interval is 1
                if 'stop_interval' not in c['global_pruning']:
                    c['global_pruning'] = c['global_pruning'].replace('update_interval=2', 'update_interval=1')
                c['global_pruning'] = c['global_pruning'].replace('stop_interval=1', 'stop_interval=2')
    if on('head_type'):
        c['head_type'] = rng.choice([
            'single', _opt(rng, 'partial-fixed', {'output_ratio': [0.3, 0.6], 'min_outputs': [2], 'max_outputs': [2, 3, 0]}),
            _opt(rng, 'partial-dynamic', {'threshold': [0.02, 0.3, 0.8], 'exponent': [1.0, 2.0]}), 'complete'])
    if on('l1_regularization_weight'):
        c['l1_regularization_weight'] = rng.choice([0.0, 0.5, 2.0])
    if on('l2_regularization_weight'):
        c['l2_regularization_weight'] = rng.choice([0.0, 1.0, 3.0])
    if learner == 'boomer-r':
        if on('loss'):
            c['loss'] = rng.choice(['squared-error-decomposable', 'squared-error-non-decomposable'])
        return c
    if on('loss', 1.2):
        c['loss'] = rng.choice(LOSSES)
    if on('label_binning'):
        c['label_binning'] = rng.choice([_opt(rng, 'equal-width', {'bin_ratio': [0.04, 0.5], 'min_bins': [1, 2],
                                                                  'max_bins': [2, 4]}), 'auto', 'none'])
    calib = lambda: rng.choice([_opt(rng, 'isotonic', {'use_holdout_set': ['true', 'false']}), 'none'])
    if on('marginal_probability_calibration'):
        c['marginal_probability_calibration'] = calib()
    if on('joint_probability_calibration'):
        c['joint_probability_calibration'] = calib()
    if on('binary_predictor'):
        flags = {'based_on_probabilities': ['true', 'false'], 'use_probability_calibration': ['true', 'false']}
        c['binary_predictor'] = rng.choice([
            _opt(rng, 'output-wise', flags), _opt(rng, 'example-wise', flags),
            _opt(rng, 'gfm', {'use_probability_calibration': ['true', 'false']}), 'auto'])
    if on('probability_predictor'):
        flags = {'use_probability_calibration': ['true', 'false']}
        c['probability_predictor'] = rng.choice([_opt(rng, 'output-wise', flags), _opt(rng, 'marginalized', flags),
                                                 'auto'])
    return c


LEARNERS = ['boomer-c', 'boomer-c', 'boomer-c', 'boomer-c', 'boomer-r', 'seco', 'seco']


def gen_base(rng, learners=LEARNERS, max_rules=None, big=False, focus=()):
    learner = rng.choice(learners)
    return {'learner': learner, 'data': gen_data(rng, learner, big), 'config': gen_config(rng, learner, max_rules, focus)}


def gen_sim(rng, detect=False, teams=(2, 2, 3, 3, 4, 4, 5, 7, 8, 12, 16)):
    strategy = rng.choice(['chunk', 'random', 'random', 'random', 'pct', 'pct', 'shared', 'shared', 'round', 'serial'])
    team = rng.choice(teams)
    return {
        'seed': rng.randrange(1, 2**62), 'strategy': strategy,
        'gap': rng.choice([1, 3, 10, 40, 200, 1000]), 'depth': rng.choice([1, 2, 3, 5, 8]),
        'fewer': rng.choice([0, 0, 20]), 'stall': rng.choice([0, 0, 30]), 'detect': detect,
        'scribble': rng.choice([0, 1, 2, 4, 5]), 'team': team, 'cores': max(team, rng.choice([1, 2, 4, 8, 16])),
        # How the number of threads is requested: by number, by using all (simulated) cores or not at all
        'how': rng.choice(['number', 'number', 'number', 'cores', 'cores', 'default']),
    }


QUERIES = ['binary', 'scores', 'proba']

# The options that affect how predictions are made
PREDICTION = ['binary_predictor', 'probability_predictor', 'prediction_format', 'marginal_probability_calibration',
              'joint_probability_calibration', 'head_type']

# ------------------------------------------------------------------------------------------------------------ shrinking


def shrink_base(case):
    """Yields simpler variants of the data and configuration of a case."""
    import copy

    def variant():
        return copy.deepcopy(case)

    data = case['data']
    rows = data.get('rows') or list(range(data['n']))
    cols = data.get('cols') or list(range(data['f']))
    outs = data.get('outs') or list(range(data['l']))
    qrows = data.get('qrows') or list(range(data['nq']))
    for key, seq in (('rows', rows), ('cols', cols), ('outs', outs), ('qrows', qrows)):
        size = len(seq) // 2
        while size >= 1:
            for start in range(0, len(seq), size):
                rest = seq[:start] + seq[start + size:]
                if rest:
                    v = variant()
                    v['data'][key] = rest
                    yield v
            size //= 2
    for key in sorted(case['config']):
        if key in ('random_state', 'max_rules'):
            continue
        v = variant()
        del v['config'][key]
        yield v
        if '{' in str(case['config'][key]):
            v = variant()
            v['config'][key] = v['config'][key].split('{')[0]
            yield v
    for m in (1, 2, 3, 5, 8):
        if m < case['config'].get('max_rules', 0):
            v = variant()
            v['config']['max_rules'] = m
            yield v
    for key in ('categories', 'scale', 'explicit'):
        if key in data:
            v = variant()
            del v['data'][key]
            yield v
    for key, value in (('missing', 0.0), ('zeros', 0.0), ('xformat', 'dense'), ('yformat', 'dense'),
                       ('types', 'n' * data['f'])):
        if data.get(key) != value:
            v = variant()
            v['data'][key] = value
            yield v
    if case['config'].get('random_state') != 1:
        v = variant()
        v['config']['random_state'] = 1
        yield v


# --------------------------------------------------------------------------------------------------- simulated process


def make_data(data, learner):
    import numpy as np
    import scipy.sparse as sp
    r = np.random.default_rng(data['seed'])
    n, f, l, nq = data['n'], data['f'], data['l'], data['nq']
    total = n + nq
    X = np.zeros((total, f), dtype=np.float32)
    for j, t in enumerate(data['types']):
        if t == 'n':
            if data['levels'] >= 1000:
                X[:, j] = r.normal(size=total) * 10.0**r.integers(-2, 3)
            else:
                X[:, j] = np.round(r.random(total) * data['levels']) - 1
        else:
            X[:, j] = r.integers(0, min(data['levels'], 6), size=total)
    X[r.random((total, f)) < data['zeros']] = 0
    if data.get('near'):  # each query example differs from the previous one in a single feature
        for i in range(n + 1, total):
            j = r.integers(f)
            value = X[i, j]
            X[i] = X[i - 1]
            X[i, j] = value
    if data.get('layout') == 'negative':  # all values of numerical features are smaller than the sparse value
        for j, t in enumerate(data['types']):
            if t == 'n':
                X[:, j] = -np.abs(X[:, j]) - 0.5
    if data.get('layout') == 'nonpositive':  # no values of numerical features are greater than the sparse value
        for j, t in enumerate(data['types']):
            if t == 'n':
                X[:, j] = -np.abs(X[:, j])
    base = X.copy()
    X[r.random((total, f)) < data['missing']] = np.nan
    if learner == 'boomer-r':
        Y = r.normal(size=(total, l)).round(2)
        if data['signal'] > 0:
            Y += data['signal'] * base[:, [j % f for j in range(l)]]
        Y[r.random((total, l)) < (1 - data['ydensity'])] = 0
    else:
        Y = (r.random((total, l)) < data['ydensity']).astype(np.uint8)
        if data['signal'] > 0:
            target = base[:, [j % f for j in range(l)]] > np.median(base, axis=0)[[j % f for j in range(l)]]
            mask = r.random((total, l)) < data['signal']
            Y = np.where(mask, target, Y).astype(np.uint8)
    if 'categories' in data:
        factor, offset = data['categories']
        for j, t in enumerate(data['types']):
            if t != 'n':
                X[:, j] = X[:, j] * factor + offset
    if 'scale' in data:
        for j, t in enumerate(data['types']):
            if t == 'n':
                X[:, j] = np.clip(X[:, j].astype(float) * data['scale'], -3.4e38, 3.4e38)
    cols = data.get('cols') or list(range(f))
    outs = data.get('outs') or list(range(l))
    rows = data.get('rows') or list(range(n))
    if data.get('layout') == 'duplicated':  # each training example occurs twice
        rows = [i for i in rows for _ in range(2)]
    qrows = [n + q for q in (data.get('qrows') or list(range(nq)))]
    x, y, xq = X[np.ix_(rows, cols)], Y[np.ix_(rows, outs)], X[np.ix_(qrows, cols)]
    types = ''.join(data['types'][j] for j in cols)
    kwargs = {}

    def convert(m):
        if data['xformat'] == 'dense':
            return m
        sv = data['sparse_value']
        kwargs['sparse_feature_value'] = sv
        mask = m != sv
        if 'explicit' in data:
            mask |= np.random.default_rng(data['seed'] + m.shape[0]).random(m.shape) < data['explicit']
            for j, t in enumerate(types):  # known finding: only the sparse value is stored
                if t != 'n' and not data.get('explicit_only') and not np.any(mask[:, j] & (m[:, j] != sv) & ~np.isnan(m[:, j])):
                    mask[:, j] &= m[:, j] != sv
        # NaN != sv, i.e., missing values are stored explicitly
        ii, jj = np.nonzero(mask)
        coo = sp.coo_array((m[mask], (ii, jj)), shape=m.shape, dtype=np.float32)
        return coo.tocsr() if data['xformat'] == 'csr' else coo.tocsc()

    x, xq = convert(x), convert(xq)
    if data['yformat'] == 'csr':
        y = sp.csr_array(y)
    elif data['yformat'] == 'lil':
        y = sp.lil_array(y)
    return x, y, xq, types, kwargs


def thread_params(team, how='number'):
    if team is None or team <= 0:
        return {k: 'false' for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction')}
    if how == 'default':  # whether multiple threads are used depends on the data and the learner
        return {}
    value = 'true{num_preferred_threads=%d}' % team if how == 'number' else 'true'
    return {k: value for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction')}


def classes():
    from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor
    from mlrl.seco.seco_learners import SeCoClassifier
    return {'boomer-c': BoomerClassifier, 'boomer-r': BoomerRegressor, 'seco': SeCoClassifier}


def relayout(m, layout, indices='same', wide=False):
    """Represents the same values differently: other strides, order of indices, types of indices or elements."""
    import numpy as np
    if wide:
        m = m.astype({'float32': np.float64, 'uint8': np.int64, 'float64': np.float64}[str(m.dtype)])
    if not isinstance(m, np.ndarray):
        m = m.copy()
        if indices == 'unsorted' and m.format in ('csr', 'csc'):
            for i in range(len(m.indptr) - 1):
                part = slice(m.indptr[i], m.indptr[i + 1])
                m.indices[part] = m.indices[part][::-1].copy()
                m.data[part] = m.data[part][::-1].copy()
            m.has_sorted_indices = False
        elif indices == 'int64' and m.format in ('csr', 'csc'):
            m.indices = m.indices.astype(np.int64)
            m.indptr = m.indptr.astype(np.int64)
        return m
    if layout == 'F':
        return np.asfortranarray(m)
    if layout == 'strided':
        big = np.full((m.shape[0] * 2, m.shape[1] * 2), 1, dtype=m.dtype)
        big[::2, ::2] = m
        return big[::2, ::2]
    return np.ascontiguousarray(m)


def make_learner(case, types, team=None, how='number', **extra):
    params = dict(case['config'])
    params.update(thread_params(team, how))
    params.update(extra)
    learner = classes()[case['learner']](**params)
    set_types(learner, types)
    return learner


def set_types(learner, types):
    ordinal = [i for i, t in enumerate(types) if t == 'o']
    nominal = [i for i, t in enumerate(types) if t == 'c']
    vars(learner).pop('ordinal_feature_indices', None)
    vars(learner).pop('nominal_feature_indices', None)
    if ordinal or nominal:
        learner.ordinal_feature_indices = ordinal
        learner.nominal_feature_indices = nominal


class Failed:
    """The outcome of an operation that raised an exception."""

    def __init__(self, error):
        self.error = error

    def key(self):
        return 'raised:' + type(self.error).__name__

    def text(self):
        return f'{type(self.error).__name__}: {self.error}'[:300]


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except (Exception, ) as error:  # pylint: disable=broad-except
        return Failed(error)


def _feed(h, obj, depth=0):
    import numpy as np
    import scipy.sparse as sp
    if obj is None or isinstance(obj, (bool, int, str, bytes, np.bool_, np.integer)):
        h.update(repr(int(obj) if isinstance(obj, np.integer) else obj).encode())
    elif isinstance(obj, (float, np.floating)):
        h.update(b'nan' if obj != obj else np.float64(obj).tobytes())
    elif isinstance(obj, np.ndarray):
        a = np.ascontiguousarray(obj)
        if a.dtype == object:
            _feed(h, a.tolist(), depth + 1)
            return
        if a.dtype.kind == 'f':
            a = a.copy()
            a[np.isnan(a)] = np.nan
        h.update(f'{a.dtype}{a.shape}'.encode())
        h.update(a.tobytes())
    elif sp.issparse(obj):
        m = obj.tocsr()
        h.update(f'sparse{m.shape}'.encode())
        _feed(h, m.toarray(), depth + 1)
    elif isinstance(obj, (list, tuple)):
        h.update(b'[')
        for o in obj:
            _feed(h, o, depth + 1)
            h.update(b',')
        h.update(b']')
    elif isinstance(obj, dict):
        h.update(b'{')
        for k in sorted(obj, key=str):
            h.update(str(k).encode() + b':')
            _feed(h, obj[k], depth + 1)
        h.update(b'}')
    elif isinstance(obj, Failed):
        h.update(obj.key().encode())
    elif isinstance(obj, type) or callable(obj):
        h.update(getattr(obj, '__name__', 'callable').encode())
    else:
        red = obj.__reduce_ex__(2)
        h.update(type(obj).__name__.encode())
        _feed(h, list(red[1:3]) if not isinstance(red, str) else red, depth + 1)


def digest(obj):
    h = hashlib.sha256()
    _feed(h, obj)
    return h.hexdigest()[:24]


def raw_digest(obj):
    """A digest of how values are represented, rather than of the values themselves."""
    import scipy.sparse as sp
    if sp.issparse(obj) and obj.format in ('csr', 'csc'):
        return digest([obj.data, obj.indices, obj.indptr])
    return digest(obj)


def model_digest(learner):
    """A digest of everything that has been learned, i.e., not of the parameters."""
    if isinstance(learner, Failed):
        return learner.key()
    params = set(learner.get_params(deep=False))
    state = {k: v for k, v in vars(learner).items() if k not in params}
    return digest(state)


def num_rules(learner):
    if isinstance(learner, Failed):
        return -1
    return learner.model_.get_num_rules()


def fit(case, x, y, types, kwargs, team=None, how='number', **extra):
    def run():
        learner = make_learner(case, types, team, how, **extra)
        learner.fit(x, y, **kwargs)
        return learner

    return attempt(run)


def predict(learner, kind, xq, kwargs, max_rules=0):
    kw = dict(kwargs)
    if max_rules:
        kw['max_rules'] = max_rules
    if kind == 'binary':
        return attempt(learner.predict, xq, **kw)
    if kind == 'scores':
        return attempt(learner.predict, xq, predict_scores=True, **kw)
    if kind == 'proba':
        if not hasattr(learner, 'predict_proba'):
            return Failed(AttributeError('predict_proba'))
        return attempt(learner.predict_proba, xq, **kw)
    raise ValueError(kind)


def predict_all(learner, xq, kwargs, kinds=QUERIES, max_rules=(0, )):
    result = {}
    for kind in kinds:
        for m in max_rules:
            result[f'{kind}@{m}' if m else kind] = predict(learner, kind, xq, kwargs, m)
    return result


def describe(obj, limit=400):
    import numpy as np
    if isinstance(obj, Failed):
        return obj.text()
    if hasattr(obj, 'toarray'):
        obj = obj.toarray()
    if isinstance(obj, np.ndarray):
        return np.array2string(obj, threshold=60, precision=17)[:limit]
    return str(obj)[:limit]


def case_key(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]
