"""Thin Python bindings for the seams that are owned by the simulator (worker side)."""
import ctypes
import os

ROOT = os.environ['SIM_BUILD_DIR']
rt = ctypes.CDLL(os.path.join(ROOT, 'rt/libsimrt.so'))
pre = ctypes.CDLL(os.path.join(ROOT, 'rt/libsimpre.so'))  # preloaded, i.e., this only looks it up

u64, i64, i32 = ctypes.c_uint64, ctypes.c_int64, ctypes.c_int

rt.simrt_trace_len.restype = u64
rt.simrt_module.restype = ctypes.c_char_p
rt.simrt_module.argtypes = [u64]
rt.simrt_symbol.restype = ctypes.c_char_p
rt.simrt_symbol.argtypes = [u64]
rt.simrt_trace_get.argtypes = [ctypes.POINTER(u64)]
rt.simrt_trace_set.argtypes = [ctypes.POINTER(u64), u64, i32]
rt.simrt_race.argtypes = [i32, ctypes.POINTER(u64)]
pre.simpre_stat.restype = u64
pre.simpre_disk_ops.restype = i64
pre.simpre_disk_fired.restype = u64
pre.simpre_clock_get.restype = i64

STAT_NAMES = ['regions', 'parallelRegions', 'steps', 'switches', 'preemptions', 'chunks', 'fewer', 'stalled', 'blocked',
              'races', 'scheduleHash', 'maxTeam', 'atomics', 'locks', 'barriers', 'budgetHits', 'sharedHits']
STRATEGIES = ['serial', 'chunk', 'random', 'pct', 'shared', 'round']


def sched_begin(sim):
    """Starts a simulated execution. `sim` is the part of a case that determines the schedule."""
    trace = sim.get('trace')
    if trace is not None:
        flat = [v for pair in trace for v in pair]
        buf = (u64 * max(1, len(flat)))(*flat)
        rt.simrt_trace_set(buf, u64(len(trace)), 1)
    else:
        rt.simrt_trace_set((u64 * 1)(), u64(0), 0)
    pre.simpre_cores(i32(sim.get('cores', 8)))
    rt.simrt_begin(u64(sim['seed']), i32(STRATEGIES.index(sim['strategy'])), i64(sim.get('gap', 10)),
                   i32(sim.get('depth', 3)), i32(sim.get('fewer', 0)), i32(sim.get('stall', 0)),
                   i32(1 if sim.get('detect') else 0), i64(sim.get('budget', 0)), i32(sim.get('scribble', 0)),
                   i32(sim.get('cores', 8)))


def sched_end():
    rt.simrt_end()
    n = rt.simrt_num_stats()
    buf = (u64 * n)()
    rt.simrt_stats(buf)
    return dict(zip(STAT_NAMES, list(buf)))


def sched_trace():
    n = rt.simrt_trace_len()
    buf = (u64 * (2 * n + 2))()
    rt.simrt_trace_get(buf)
    return [[buf[2 * i], buf[2 * i + 1]] for i in range(n)]


def races():
    result = []
    for i in range(rt.simrt_num_races()):
        b = (u64 * 11)()
        rt.simrt_race(i, b)
        kinds = ['read', 'write', 'atomic read', 'atomic write']
        result.append({
            'in': rt.simrt_symbol(b[0]).decode(), 'other_in': rt.simrt_symbol(b[1]).decode(),
            'access': kinds[b[4]], 'other': kinds[b[5]], 'threads': [b[6], b[7]], 'region': b[8], 'size': b[9],
            'step': b[10],
            'at': '%s+0x%x' % (os.path.basename((rt.simrt_module(b[0]) or b'?').decode()), b[0] - b[2]),
            'other_at': '%s+0x%x' % (os.path.basename((rt.simrt_module(b[1]) or b'?').decode()), b[1] - b[3]),
        })
    return result


def heap(spec):
    """spec: {'fill': 0..., 'salt': int, 'poison': bool}"""
    pre.simpre_heap(i32(spec.get('fill', 0)), u64(spec.get('salt', 0)), i32(1 if spec.get('poison') else 0))


def scribble(spec):
    if spec.get('stack'):
        pre.simpre_scribble(i32(spec.get('fill', 1)), u64(spec.get('salt', 0)), u64(spec.get('stack')))


def heap_corruptions():
    return int(pre.simpre_stat(i32(2)))


def clock(spec):
    if not spec:
        pre.simpre_clock(i32(0), i64(0), i64(0), u64(0), i64(0))
        return
    pre.simpre_clock(i32(1), i64(spec.get('mono', 10**12)), i64(spec.get('real', 1700000000 * 10**9)),
                     u64(spec.get('seed', 1)), i64(spec.get('tick', 1000)))
    for at, advance, jump in spec.get('events', []):
        pre.simpre_clock_event(i64(at), i64(advance), i64(jump))


def alloc_faults(armed, at=0, count=1):
    pre.simpre_alloc_faults(i32(1 if armed else 0), i64(at), i64(count))


def alloc_stats():
    """Numbers of allocations by the code under test, and of failed ones, since faults have been (dis-)armed."""
    return int(pre.simpre_stat(i32(0))), int(pre.simpre_stat(i32(1)))


def lapack_faults(at=0, count=1, info=1):
    pre.simpre_lapack_faults(i64(at), i64(count), i32(info))


def lapack_stats():
    return int(pre.simpre_stat(i32(3))), int(pre.simpre_stat(i32(4)))


def clock_work(per_alloc=0, events=()):
    """The clock advances as allocations are made by the code under test (which must be counted, see `alloc_faults`)."""
    pre.simpre_clock_work(i64(per_alloc))
    for at, advance, jump in events:
        pre.simpre_clock_work_event(i64(at), i64(advance), i64(jump))


def clock_now():
    return int(pre.simpre_clock_get(i32(0)))
