"""Zygote process: everything is imported once, each task runs in a process of its own that is forked from here."""
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

OUT = os.dup(1)
os.dup2(2, 1)


def execute(module, payload):
    return module.execute(payload)


def run_child(module, payload, wfd, cpu):
    os.environ['SIM_CHILD'] = '1'
    if cpu:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        result = {'ok': execute(module, payload)}
    except MemoryError as e:
        result = {'harness_error': 'MemoryError ' + str(e)}
    except BaseException:  # pylint: disable=broad-except
        result = {'harness_error': traceback.format_exc()[-3000:]}
    data = json.dumps(result).encode()
    view = memoryview(data)
    while view:
        view = view[os.write(wfd, view):]
    os._exit(0)


def run_task(module, payload, cpu, wall):
    rfd, wfd = os.pipe()
    efd = os.memfd_create('stderr')
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.dup2(efd, 2)
        os.dup2(efd, 1)
        try:
            run_child(module, payload, wfd, cpu)
        finally:
            os._exit(70)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0.0, deadline - time.monotonic()))
        if not ready:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    size = os.lseek(efd, 0, os.SEEK_END)
    os.lseek(efd, max(0, size - 3000), os.SEEK_SET)
    err = os.read(efd, 3000).decode(errors='replace')
    os.close(efd)
    if timed_out:
        return {'died': 'wall', 'stderr': err}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return {'died': 'cpu-limit', 'stderr': err}
        return {'died': 'signal:' + signal.Signals(sig).name, 'stderr': err}
    code = os.WEXITSTATUS(status)
    if code != 0:
        return {'died': f'exit:{code}', 'stderr': err}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'died': 'garbled', 'stderr': err}


def main():
    name = sys.argv[1]
    module = importlib.import_module('props.' + name)
    module.warm_up()
    os.write(OUT, b'{"ready": true}\n')
    for line in sys.stdin:
        task = json.loads(line)
        result = run_task(module, task['payload'], task.get('cpu', 60), task.get('wall', 240))
        os.write(OUT, json.dumps(result).encode() + b'\n')


if __name__ == '__main__':
    main()
