"""Builds the code under test from /repo's working tree into /verif/.build/<variant>, linked against the simulator.

Variants:
  sched  C++ compiled with gcc's -fsanitize=thread instrumentation, linked against the simulator's own runtime (sim/rt):
         every memory access of the C++ code is a preemption point and is checked.
  dbg    development aid: debug information, real OpenMP runtime (to be used with valgrind).
  plain  no instrumentation (scheduling decisions at work-sharing boundaries only).

Nothing is taken from earlier builds of /repo. Compilations go through ccache with a private cache directory, which is
keyed by content, so a second build in the same sandbox is fast and cannot use stale objects.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('SIM_REPO', '/repo'))
ROOT = Path(os.environ.get('SIM_BUILD_DIR', str(VERIF / '.build')))
VENV = Path('/opt/vp/venv')
PY = VENV / 'bin/python'
RT = VERIF / 'sim/rt'
SUBPROJECTS = ['common', 'boosting', 'seco']

WRAPPED = ['memcpy', 'memmove', 'memset', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock',
           'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort']


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env['PATH'] = str(VENV / 'bin') + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['CCACHE_DIR'] = str(ROOT / 'ccache')
    env['CCACHE_COMPILERCHECK'] = 'content'
    env['CCACHE_NOHASHDIR'] = '1'
    env['LANG'] = 'C.UTF-8'
    env.pop('LD_PRELOAD', None)
    env.pop('PYTHONPATH', None)
    return env


def _run(cmd, cwd=None):
    proc = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if proc.returncode != 0:
        raise BuildError(' '.join(map(str, cmd)) + '\n' + proc.stdout.decode(errors='replace')[-6000:])
    return proc.stdout.decode(errors='replace')


def _write_if_changed(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if not path.exists() or path.read_text() != text:
        path.write_text(text)


def _sources(subproject):
    base = REPO / 'cpp/subprojects' / subproject
    text = (base / 'meson.build').read_text()
    match = re.search(r'source_files\s*=\s*\[(.*?)\]', text, re.S)
    names = re.findall(r"'([^']+\.cpp)'", match.group(1)) if match else []
    if not names:
        names = [str(p.relative_to(base)) for p in (base / 'src').rglob('*.cpp')]
    return [base / n for n in names]


def _config_header(subproject, out):
    template = REPO / 'cpp/subprojects' / subproject / 'include/mlrl' / subproject / 'config.hpp.in'
    version = (REPO / '.version').read_text().strip()
    values = {
        f'mlrl{subproject}_library_name': f'libmlrl{subproject}',
        f'mlrl{subproject}_library_version': version,
        f'mlrl{subproject}_target_architecture': 'x86_64-linux',
        'multi_threading_support_enabled': '1',
        'gpu_support_enabled': '0',
    }
    text = re.sub(r'@(\w+)@', lambda m: values.get(m.group(1), '0'), template.read_text())
    _write_if_changed(out / 'config.hpp', text)


def _cython_modules(subproject):
    base = REPO / 'python/subprojects' / subproject
    text = (base / 'meson.build').read_text()
    match = re.search(r'cython_module_names\s*=\s*\[(.*?)\]', text, re.S)
    names = re.findall(r"'([^']+)'", match.group(1)) if match else []
    return [base / 'mlrl' / subproject / 'cython' / (n + '.pyx') for n in names]


def build_runtime(out):
    """Builds the simulator's own libraries."""
    out.mkdir(parents=True, exist_ok=True)
    cc = ['ccache', 'g++', '-std=c++20', '-O2', '-g0', '-fPIC', '-fno-exceptions', '-fno-builtin', '-pthread', '-ftls-model=initial-exec']
    jobs = []
    for name in ('simpre', 'simrt'):
        obj = out / (name + '.o')
        jobs.append((cc + ['-c', str(RT / (name + '.cpp')), '-o', str(obj)], obj, name))
    for cmd, obj, name in jobs:
        _run(cmd)
        _run(['g++', '-shared', '-o', str(out / f'lib{name}.so'), str(obj), '-ldl', '-pthread',
              '-Wl,-soname,' + f'lib{name}.so'])


def build(variant='sched', subprojects=('common', 'boosting', 'seco'), log=None):
    """Builds and returns the directory to be used as PYTHONPATH."""
    start = time.time()
    out = ROOT / variant
    stage = out / 'stage'
    (ROOT / 'ccache').mkdir(parents=True, exist_ok=True)
    out.mkdir(parents=True, exist_ok=True)
    rt = ROOT / 'rt'
    build_runtime(rt)

    opt = ['-O1', '-g0'] if variant != 'dbg' else ['-O1', '-g']
    inst = ['-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0'] if variant == 'sched' else []
    base_flags = ['-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64', '-w', '-std=c++20', '-fPIC', '-fopenmp'] + opt

    tasks = []  # (priority, command)
    objects = {}
    for sp in SUBPROJECTS:
        if sp not in subprojects:
            continue
        cfg = out / 'cfg' / sp
        _config_header(sp, cfg)
        inc = ['-I' + str(cfg), '-I' + str(REPO / 'cpp/subprojects' / sp),
               '-I' + str(REPO / 'cpp/subprojects' / sp / 'include'),
               '-I' + str(REPO / 'cpp/subprojects/common/include')]
        objects[sp] = []
        for src in _sources(sp):
            obj = out / 'obj' / sp / (str(src.relative_to(REPO / 'cpp/subprojects' / sp)).replace('/', '_') + '.o')
            obj.parent.mkdir(parents=True, exist_ok=True)
            objects[sp].append(obj)
            name = src.name
            weight = src.stat().st_size + (100000 if ('statistics_provider' in name or 'learner_' in name) else 0)
            tasks.append((weight, ['ccache', 'g++'] + inc + base_flags + inst + ['-c', str(src), '-o', str(obj)]))

    # Cython: generated sources are kept if no .pyx/.pxd file and not the Cython version changed (content hash).
    inputs = sorted((REPO / 'python/subprojects').glob('*/mlrl/*/cython/*.p[yx][xd]'))
    digest = hashlib.sha256()
    for p in inputs:
        digest.update(str(p).encode() + b'\0' + p.read_bytes() + b'\0')
    key = digest.hexdigest()
    pyinc = [sysconfig_paths()['include'], numpy_include()]
    ext_suffix = sysconfig_paths()['ext']
    cy_flags = ['-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-w', '-std=c++17', '-fPIC', '-O0', '-g0']
    cyobj = {}

    def cython_task(sp, pyx, gen, obj):
        stamp = gen.with_suffix('.key')
        if not (gen.exists() and stamp.exists() and stamp.read_text() == key):
            _run(['cython', '-M', '--fast-fail', '-3', '--cplus', '-I', str(REPO / 'python/subprojects/common'),
                  str(pyx), '-o', str(gen)])
            stamp.write_text(key)
        inc = ['-I' + p for p in pyinc] + ['-I' + str(REPO / 'cpp/subprojects/common/include'),
                                           '-I' + str(REPO / 'cpp/subprojects' / sp / 'include'),
                                           '-I' + str(out / 'cfg' / sp)]
        _run(['ccache', 'g++'] + inc + cy_flags + ['-c', str(gen), '-o', str(obj)])

    for sp in SUBPROJECTS:
        if sp not in subprojects:
            continue
        cyobj[sp] = []
        for pyx in _cython_modules(sp):
            gen = out / 'cy' / sp / (pyx.stem + '.cpp')
            obj = out / 'cy' / sp / (pyx.stem + '.o')
            gen.parent.mkdir(parents=True, exist_ok=True)
            cyobj[sp].append((pyx, obj))
            tasks.append((pyx.stat().st_size * 20, (cython_task, sp, pyx, gen, obj)))

    tasks.sort(key=lambda t: -t[0])

    def execute(task):
        cmd = task[1]
        if isinstance(cmd, tuple):
            cmd[0](*cmd[1:])
        else:
            _run(cmd)

    workers = os.cpu_count() or 8
    with ThreadPoolExecutor(workers) as pool:
        list(pool.map(execute, tasks))

    # Link
    if stage.exists():
        shutil.rmtree(stage)
    wraps = ['-Wl,--wrap=' + w for w in WRAPPED] if variant != 'dbg' else []
    for sp in SUBPROJECTS:
        if sp in subprojects or sp == 'common':
            (stage / 'mlrl' / sp / 'cython').mkdir(parents=True, exist_ok=True)
    link_jobs = []
    for sp in SUBPROJECTS:
        if sp not in subprojects:
            continue
        lib = stage / 'mlrl' / sp / 'cython' / f'libmlrl{sp}.so'
        objs = [str(o) for o in objects[sp]]
        if sp != 'common':
            # As in the shipped build, the code of "common" is contained in each of the dependent libraries.
            objs = objs + [str(o) for o in objects['common']]
        link_jobs.append(['g++', '-shared', '-o', str(lib)] + objs + wraps +
                         ['-Wl,-soname,' + f'libmlrl{sp}.so', '-L' + str(rt), '-Wl,-rpath,' + str(rt), '-lsimrt' if variant != 'dbg' else '-lgomp'])
    with ThreadPoolExecutor(workers) as pool:
        list(pool.map(_run, link_jobs))
    link_jobs = []
    for sp in SUBPROJECTS:
        if sp not in subprojects:
            continue
        libdir = stage / 'mlrl' / sp / 'cython'
        for pyx, obj in cyobj[sp]:
            so = libdir / (pyx.stem + ext_suffix)
            link_jobs.append(['g++', '-shared', '-o', str(so), str(obj), '-L' + str(libdir), f'-lmlrl{sp}',
                              '-Wl,-rpath,$ORIGIN', '-Wl,-rpath,' + str(rt)])
    with ThreadPoolExecutor(workers) as pool:
        list(pool.map(_run, link_jobs))

    # Python sources
    for sp in list(subprojects) + ['testbed']:
        src = REPO / 'python/subprojects' / sp / 'mlrl'
        for path in src.rglob('*.py'):
            dst = stage / 'mlrl' / path.relative_to(src)
            dst.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(path, dst)

    if log:
        log(f'built variant {variant} in {time.time() - start:.1f} s')
    return stage


_PATHS = {}


def sysconfig_paths():
    if not _PATHS:
        text = subprocess.check_output(
            [str(PY), '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);'
             'print(sysconfig.get_config_var("EXT_SUFFIX"));print(numpy.get_include())'], env=_env()).decode().split('\n')
        _PATHS.update(include=text[0], ext=text[1], numpy=text[2])
    return _PATHS


def numpy_include():
    return sysconfig_paths()['numpy']


if __name__ == '__main__':
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else 'sched', log=print))
    except BuildError as e:
        print(e)
        sys.exit(3)
