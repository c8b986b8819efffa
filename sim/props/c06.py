"""C06: incremental prediction is equivalent to prediction with a limited number of rules."""
from props import history
from props.base import warm_up, SIMULATOR  # noqa: F401
from props.history import execute, shrink  # noqa: F401
import lab

ID, NAME = 'C06', 'c06'
COUNT = {'quick': 8000, 'thorough': 40000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random histories of opening, advancing and closing incremental predictors (several at the same time, with random '
        'step sizes and limits), interleaved with other predictions, refitting and discarding of the learner they belong '
        'to; non-trivial: rules were learned and more than 3 operations executed; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime, heap contents.'
ASSUMPTIONS = ['The query array is not modified as long as an incremental predictor is in use.']
WEIGHTS = {'new': 1, 'fit': 1, 'predict': 4, 'discard': 1, 'open': 6, 'step': 20, 'close': 1, 'gc': 2, 'check_model': 1}
LEARNERS = ['boomer-c', 'boomer-c', 'boomer-c', 'boomer-r', 'seco', 'seco']


def gen(rng, i):
    sim = lab.gen_sim(rng)
    spec = history.gen_spec(rng, LEARNERS, lab.PREDICTION + ['default_rule'])
    if rng.random() < 0.6:
        del spec['datasets'][1]
    ops = [['new', 0, rng.randrange(2), 0, 0], ['open', 0] + [rng.randrange(1000) for _ in range(3)]]
    ops += [['step', 0, 0, rng.randrange(1000), 0] for _ in range(rng.choice([1, 2, 6]))]
    return {
        'specs': [spec], 'ops': ops + history.gen_history(rng, WEIGHTS, rng.choice([6, 12, 24, 40]), 1),
        'team': rng.choice([0, 0, sim['team']]), 'sim': sim, 'prefixes': True,
        'heap': {'fill': rng.choice([0, 1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': True},
    }
