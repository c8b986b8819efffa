"""C05: operations on different learners, and earlier operations on the same learner, do not affect each other."""
from props import history
from props.base import warm_up, SIMULATOR  # noqa: F401
from props.history import execute, shrink  # noqa: F401
import lab

ID, NAME = 'C05', 'c05'
COUNT = {'quick': 8000, 'thorough': 40000}
TIME = {'quick': 50, 'thorough': 1500}
RULE = ('random histories of operations (fit, refit, predict, clone, copy, pickle, reconfigure, discard, garbage '
        'collection, invalid requests, failing and repeated training, arrays that are reused for other queries, overwriting of arrays that have been passed earlier) on several learners; '
        'non-trivial: rules were learned and more than 3 operations executed; distinct by case hash')
COMPONENTS = SIMULATOR + 'Stub: the OpenMP runtime, heap contents.'
ASSUMPTIONS = ['Operations are interleaved at the granularity of API calls (the library holds the GIL while a call is '
               'executed); threads are interleaved within calls.']
WEIGHTS = {'new': 4, 'fit': 5, 'predict': 10, 'check_model': 3, 'refused': 1, 'bad_fit': 1, 'pickle': 3, 'deepcopy': 1, 'clone': 1,
           'reconfigure': 1, 'discard': 2, 'open': 2, 'step': 4, 'close': 1, 'gc': 2}


def gen(rng, i):
    num_specs = rng.choice([1, 2, 2, 3])
    sim = lab.gen_sim(rng)
    return {
        'specs': [history.gen_spec(rng) for _ in range(num_specs)],
        'ops': history.gen_history(rng, WEIGHTS, rng.choice([6, 12, 24, 40]), num_specs),
        'team': rng.choice([0, 0, sim['team']]), 'sim': sim, 'requery': rng.random() < 0.7,
        'heap': {'fill': rng.choice([0, 1, 2, 4, 5]), 'salt': rng.randrange(2**31), 'poison': True},
    }
