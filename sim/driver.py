"""Driver side: pools of simulated processes and their references."""
import hashlib
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class WorkerDied(Exception):
    pass


class Worker:
    """one zygote process"""

    def __init__(self, hashseed='0', salt='0'):
        self.key = (hashseed, salt)
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('PYTHON')}
        env.update({
            'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1',
            'SIM_CLASS_SALT': str(salt), 'MPLBACKEND': 'Agg',
            'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8',
            'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'TZ': 'UTC',
        })
        self.p = subprocess.Popen(
            [PY, '-m', 'sim.worker'], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if os.environ.get('SIM_DEBUG') else
            subprocess.DEVNULL)
        self.n = 0
        self.booted = False

    def boot(self):
        if self.booted:
            return
        line = self.p.stdout.readline()
        try:
            msg = json.loads(line)
        except ValueError:
            raise WorkerDied('zygote did not start: %r' % line[:200])
        if msg.get('boot') != 'ok':
            raise BootError(msg.get('boot'))
        self.booted = True

    def call(self, job, cpu=45, wall=240):
        self.boot()
        self.n += 1
        req = json.dumps({'id': self.n, 'job': job, 'cpu': cpu, 'wall': wall})
        try:
            self.p.stdin.write(req.encode() + b'\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        if not line:
            raise WorkerDied('zygote died')
        return json.loads(line)['res']

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()


class BootError(Exception):
    """the library cannot be imported"""


class Pool:
    """workers for several simulated environments (hash seed, class salt)"""

    def __init__(self, nworkers=None, envs=(('0', '0'),)):
        self.nworkers = nworkers or int(os.environ.get('SIM_WORKERS', '8'))
        self.free = {}
        self.lock = threading.Lock()
        self.all = []
        self.sessions = 0
        self.died = 0
        self.per_env = max(2, self.nworkers // max(1, len(envs)))
        for env in envs:
            self.add_env(env, self.per_env)

    def add_env(self, env, n=None):
        env = (str(env[0]), str(env[1]))
        with self.lock:
            if env in self.free:
                return
            q = queue.Queue()
            self.free[env] = q
            ws = [Worker(*env) for _ in range(n or self.nworkers)]
            self.all += ws
            for w in ws:
                q.put(w)

    def run(self, job, env=('0', '0'), cpu=45, wall=240):
        """run one job in a pristine simulated process"""
        env = (str(env[0]), str(env[1]))
        if env not in self.free:
            self.add_env(env, self.per_env)
        q = self.free[env]
        for attempt in range(3):
            w = q.get()
            try:
                res = w.call(job, cpu, wall)
                q.put(w)
                self.sessions += 1
                return res
            except WorkerDied:
                self.died += 1
                try:
                    w.p.kill()
                except Exception:
                    pass
                q.put(Worker(*env))
        return {'error': 'worker died repeatedly'}

    def close(self):
        for env, q in self.free.items():
            while True:
                try:
                    q.get_nowait().close()
                except queue.Empty:
                    break


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()


def run_rng(*parts):
    """an RNG that is a pure function of its parts"""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Refs:
    """memoised outcomes of scripts run alone in a pristine process"""

    def __init__(self, pool):
        self.pool = pool
        self.memo = {}
        self.lock = threading.Lock()
        self.misses = 0

    def job(self, job, env=('0', '0'), **kw):
        key = digest([job, env])
        with self.lock:
            hit = self.memo.get(key)
        if hit is not None:
            return hit
        res = self.pool.run(job, env, cpu=15, **kw)
        with self.lock:
            self.memo[key] = res
            self.misses += 1
        return res

    def script(self, script, pre=(), env=('0', '0'), texts=False):
        """outcome list of `script` alone (after the given set-up steps)"""
        job = {'steps': list(pre) + [{'t': 'script', 's': script}]}
        if texts:
            job['texts'] = True
        res = self.job(job, env)
        if 'ok' not in res:
            return res
        return res['ok']['steps'][-1]
