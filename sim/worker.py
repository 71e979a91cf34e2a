"""Zygote: imports the library once, then forks one child per simulated run.

Protocol (JSON lines): stdin <- {"id", "job", "cpu", "wall"},
real stdout -> {"id", "res"} with res = {"ok": ...} | {"crash": ...} |
{"error": traceback}.
"""
import gc
import glob
import json
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback


def child(job, wfd, cpu):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from . import jobs
        if os.environ.get('SIM_COVER'):
            from . import monitor
            with monitor.Coverage(os.environ['SIM_COVER']):
                res = {'ok': jobs.execute(job)}
        else:
            res = {'ok': jobs.execute(job)}
    except BaseException:
        res = {'error': traceback.format_exc()[-4000:]}
    try:
        data = json.dumps(res).encode()
    except BaseException:
        data = json.dumps({'error': traceback.format_exc()[-4000:]}).encode()
    view = memoryview(data)
    while len(view):
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('SIM_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    inp = sys.stdin
    from . import seams
    try:
        seams.setup_process(os.environ.get('SIM_CLASS_SALT', '0'))
        from . import jobs
        jobs.prepare()
    except BaseException:
        out.write(json.dumps({'boot': traceback.format_exc()[-4000:]}) + '\n')
        out.flush()
        return
    gc.collect()
    gc.freeze()
    gc.disable()
    out.write(json.dumps({'boot': 'ok'}) + '\n')
    out.flush()
    while True:
        line = inp.readline()
        if not line:
            return
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            child(req['job'], w, int(req.get('cpu', 60)))
            os._exit(3)
        os.close(w)
        deadline = time.monotonic() + req.get('wall', 240)
        chunks = []
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                timed_out = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        for d in glob.glob('/tmp/qnetsim-%d-*' % pid):
            shutil.rmtree(d, ignore_errors=True)
        if timed_out:
            res = {'crash': 'wall-timeout'}
        else:
            try:
                res = json.loads(b''.join(chunks))
            except ValueError:
                sig = status & 0x7f
                if sig == signal.SIGXCPU or sig == signal.SIGKILL:
                    res = {'crash': 'cpu-limit' if sig == signal.SIGXCPU
                           else 'killed'}
                else:
                    res = {'crash': 'signal %d status %d' % (sig, status)}
        out.write(json.dumps({'id': req['id'], 'res': res}) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
