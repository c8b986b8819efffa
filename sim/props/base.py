"""Shared by the properties (worker side)."""
import lab


def warm_up():
    import numpy  # noqa: F401
    import scipy.sparse  # noqa: F401
    import simlib
    import mlrl.boosting
    import mlrl.seco
    import os
    stage = os.environ['PYTHONPATH']
    for m in (mlrl.boosting, mlrl.seco):
        assert m.__file__.startswith(stage), m.__file__
    # Warms up all lazily imported modules
    import numpy as np
    x = np.asarray([[0.0, 1.0], [1.0, 0.0], [0.5, 0.2]], dtype=np.float32)
    y = np.asarray([[1, 0], [0, 1], [1, 1]], dtype=np.uint8)
    for cls in lab.classes().values():
        learner = cls(max_rules=2, **lab.thread_params(None))
        learner.fit(x, y)
        learner.predict(x)
    simlib.sched_trace()


SIMULATOR = 'libmlrlcommon/boosting/seco (all C++ code, instrumented), the Cython modules and the Python packages: real. '


def merge_stats(target, s):
    for key in ('regions', 'parallelRegions', 'steps', 'switches', 'preemptions', 'chunks', 'blocked', 'sharedHits'):
        target['sched_' + key] = target.get('sched_' + key, 0) + s[key]
    target['max_team'] = max(target.get('max_team', 0), s['maxTeam'])
    target['executions'] = target.get('executions', 0) + 1


def merge_faults(target, s):
    if s['fewer']:
        target['fewer_threads_than_requested'] = target.get('fewer_threads_than_requested', 0) + s['fewer']
    if s['stalled']:
        target['stalled_thread'] = target.get('stalled_thread', 0) + s['stalled']
    if s['preemptions']:
        target['preemption'] = target.get('preemption', 0) + s['preemptions']
