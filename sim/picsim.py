"""Rendering circuits with a recording stand-in for PyX, on a scratch disk
with a simulated clock (P13)."""
import contextlib
import errno
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import types


PREFIX = 'qnetsim-'


# --------------------------------------------------------------------------
# stand-in for PyX: everything that is drawn is recorded
# --------------------------------------------------------------------------

def ser(x):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return round(float(x), 6) + 0.0
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return [ser(i) for i in x]
    if isinstance(x, dict):
        return {str(k): ser(v) for k, v in x.items()}
    if isinstance(x, (Value, Canvas)):
        return x.data()
    return type(x).__name__


class Value:
    """anything of PyX but a canvas"""

    def __init__(self, what, *parts):
        self._what = what
        self._parts = parts

    def data(self):
        return [self._what] + [ser(p) for p in self._parts]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Value(self._what + '.' + name, *self._parts)

    def __call__(self, *args, **kwargs):
        return Value(self._what + '()', *(self._parts + args), kwargs)


class Canvas:
    def __init__(self, *args, **kwargs):
        self.ops = []

    def data(self):
        return [[n, ser(a), ser(k)] for n, a, k in self.ops]

    def text(self, x, y, text, *args, **kwargs):
        WORLD.trouble('text')
        self.ops.append(('text', (x, y, text) + args, kwargs))

    def labels(self):
        out = []
        for n, a, k in self.ops:
            if n == 'text':
                out.append(a[2])
            for x in a:
                if isinstance(x, Canvas):
                    out += x.labels()
        return out

    def picture(self, kind):
        return json.dumps([kind, sorted(self.labels()), self.data()]).encode()

    def writetofile(self, filename, *args, **kwargs):
        WORLD.write(filename, self.picture('vector'))

    writeEPSfile = writePDFfile = writePSfile = writeSVGfile = writetofile

    def writeGSfile(self, filename=None, device=None, *args, **kwargs):
        # (PyX ignores the exit code of Ghostscript)
        WORLD.ghostscript(filename, self.picture('bitmap'))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def record(*args, **kwargs):
            self.ops.append((name, args, kwargs))
            return self
        return record


def stub():
    mod = types.ModuleType('pyx')
    for n in ('text', 'path', 'trafo', 'deco', 'style', 'color', 'unit',
              'attr', 'box', 'connector', 'bitmap'):
        sub = types.ModuleType('pyx.' + n)
        sub.__getattr__ = Value(n).__getattr__
        setattr(mod, n, sub)
        sys.modules['pyx.' + n] = sub
    canvas = types.ModuleType('pyx.canvas')
    canvas.canvas = Canvas
    mod.canvas = canvas
    sys.modules['pyx.canvas'] = canvas
    sys.modules['pyx'] = mod
    return mod


def load():
    """(the drawing module was imported with the stand-in)"""
    import qnet.visualization.circuit_pyx as m
    m.GS = '/usr/bin/gs'


class Image:
    def __init__(self, data=None, url=None, filename=None, **kwargs):
        if filename is not None:
            with open(filename, 'rb') as f:
                data = f.read()
        self.filename = filename
        self.data = data


# --------------------------------------------------------------------------
# clock and disk
# --------------------------------------------------------------------------

class Clock:
    """reads the same time several times in a row, jumps, and sleeps
    instantly"""

    def __init__(self, st):
        self.now = 1.6e9
        self.tick = st.get('tick', 0)
        self.jumps = {int(k): v for k, v in st.get('jumps', ())}
        self.reads = 0
        self.slept = 0

    def time(self):
        self.now += self.tick + self.jumps.get(self.reads, 0)
        self.reads += 1
        return self.now

    def sleep(self, s):
        self.slept += s
        self.now += s

    def time_ns(self):
        return int(self.time() * 1e9)


def leaves(c):
    import qnet as q
    if isinstance(c, (q.SeriesProduct, q.Concatenation, q.Feedback)):
        return [x for op in c.operands for x in leaves(op)]
    if isinstance(c, q.CPermutation) or c is q.CIdentity:
        return []
    return [c]


def incomplete(c, path):
    """is there a labelled box for each component of the circuit?"""
    import qnet as q
    try:
        with open(path, 'rb') as fh:
            labels = json.loads(fh.read())[1]
    except (OSError, ValueError, TypeError):
        return False    # (found otherwise)
    parts = leaves(c)
    if len(parts) != len(labels):
        return '%d boxes for %d components' % (len(labels), len(parts))
    for x in parts:
        if not isinstance(x, q.SLH) and not any(
                q.latex(x) in lab for lab in labels):
            return 'no box is labelled as %s' % x
    return False


class World:
    def __init__(self):
        self.ses = None
        self.root = None
        self.plan = {}
        self.fired = []

    def start(self, ses):
        if self.ses is ses:
            return
        load()
        self.ses = ses
        self.clock = Clock({})
        self.reported = []      # [path, digest]
        self.owner = os.getpid()
        self.root = tempfile.mkdtemp(prefix='%s%d-' % (PREFIX, os.getpid()),
                                     dir='/tmp')
        self.patch()

    def patch(self):
        tempfile.tempdir = self.root
        os.environ['TMPDIR'] = self.root
        for n in ('time', 'monotonic', 'perf_counter'):
            setattr(time, n, lambda: self.clock.time())
        for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
            setattr(time, n, lambda: self.clock.time_ns())
        time.sleep = lambda s: self.clock.sleep(s)
        self.nproc = 0
        self.entropy = random.Random(7)
        os.urandom = lambda n: bytes(
            self.entropy.randrange(256) for _ in range(n))
        disp = types.ModuleType('IPython.display')
        disp.Image = Image
        disp.display = self.display
        ip = sys.modules.get('IPython') or types.ModuleType('IPython')
        ip.display = disp
        sys.modules['IPython'] = ip
        sys.modules['IPython.display'] = disp
        self.shown = {}     # per thread

    def stop(self):
        if self.root and self.owner == os.getpid():
            shutil.rmtree(self.root, ignore_errors=True)

    def display(self, *objs, **kwargs):
        self.shown.setdefault(threading.get_ident(), []).extend(objs)

    # -- faults ----------------------------------------------------------
    def trouble(self, at, **kw):
        f = self.plan
        if f.get('at') != at:
            return
        f['n'] = f.get('n', 0)
        if f['n'] > 0:
            f['n'] -= 1
            return
        f['at'] = None
        self.fired.append(at)
        if f.get('exc') == 'ValueError':
            raise ValueError('injected')
        if f.get('exc') == 'RuntimeError':
            raise RuntimeError('injected')
        if f.get('exc') == 'KeyboardInterrupt':
            raise KeyboardInterrupt('injected')
        n = getattr(errno, f.get('errno', 'EIO'))
        raise OSError(n, os.strerror(n))

    def write(self, filename, data):
        f = self.plan
        self.trouble('open')
        with open(filename, 'wb') as fh:
            if f.get('at') in ('data', 'die'):
                fh.write(data[:int(f['pos'] * len(data))])
                fh.flush()
                if f['at'] == 'die':
                    os._exit(0)
                self.trouble('data')
            fh.write(data)
            self.trouble('close')

    def ghostscript(self, filename, data):
        self.trouble('spawn')
        if self.plan.get('at') == 'gs':
            # fails with a non-zero exit code that nobody looks at
            self.plan['at'] = None
            self.fired.append('gs')
            return
        try:
            with open(filename, 'wb') as fh:
                if self.plan.get('at') == 'die':
                    fh.write(data[:int(self.plan['pos'] * len(data))])
                    fh.flush()
                    os._exit(0)
                fh.write(data)
        except OSError:
            self.fired.append('gs')

    # -- events ----------------------------------------------------------
    def circuit(self, st):
        import qnet as q
        if st['label'] not in self.ses.scripts:
            return None
        vals = [v for v in self.ses.scripts[st['label']][1]
                if isinstance(v, q.Circuit)]
        if not vals:
            return None
        return vals[int(st['r'] * len(vals)) % len(vals)]

    def path(self, name):
        if name is None:
            return None
        return os.path.join(self.root, name)

    def call(self, fn):
        from . import jobs
        gate = jobs.INTERP.thread_gate
        if gate is not None:
            gate.enter()
        jobs.INTERP.active = True
        try:
            return fn(), None
        except (Exception, KeyboardInterrupt) as exc:
            return None, '!%s: %s' % (type(exc).__name__, exc)
        finally:
            jobs.INTERP.active = False
            if gate is not None:
                gate.leave()

    def read(self, path):
        try:
            with open(path, 'rb') as fh:
                return hashlib.md5(fh.read()).hexdigest()[:12]
        except (OSError, TypeError) as exc:
            return '(%s)' % type(exc).__name__

    def event(self, st):
        do = st['do']
        if do == 'stale':
            p = self.path(st['path'])
            self.reported = [x for x in self.reported if x[0] != p]
            with open(p, 'wb') as fh:
                fh.write(b'something else')
            return {'end': 'ok'}
        if do == 'rm':
            if self.reported:
                p = self.reported.pop(int(st['r'] * len(self.reported)))[0]
                self.reported = [x for x in self.reported if x[0] != p]
                try:
                    os.remove(p)
                except OSError:
                    pass
            return {'end': 'ok'}
        c = self.circuit(st)
        if c is None:
            return {'end': 'skip'}
        from . import jobs
        threads = jobs.INTERP.thread_gate is not None
        if not threads:
            self.clock = Clock(st.get('clock') or {})
            self.plan = dict(st.get('fault') or {})
            self.fired = []
        path = self.path(st.get('path'))
        if path is not None:
            # the client asks for this file to be replaced
            self.reported = [x for x in self.reported if x[0] != path]
        r = {'end': 'ok'}
        if do == 'render':
            got, err = self.call(lambda: c.render(path) if path else
                                 c.render())
        elif do == 'show':
            self.shown[threading.get_ident()] = []
            got, err = self.call(c.show)
            if not err:
                im = self.shown[threading.get_ident()]
                if len(im) != 1 or not isinstance(im[0], Image):
                    err = '?nothing shown'
                else:
                    r['shown'] = hashlib.md5(
                        im[0].data or b'').hexdigest()[:12]
                    got = im[0].filename
        else:
            import qnet.visualization.circuit_pyx as m
            got, err = self.call(lambda: m.draw_circuit(c, path, **st['kw']))
            if not err:
                if got is True:
                    got = path
                else:
                    err = '!%r' % (got,)
        if err:
            r['end'] = err.split(':')[0]
        else:
            r['wrong_path'] = path is not None and got != path
            d = self.read(got)
            r['file'] = d
            r['incomplete'] = incomplete(c, got)
            self.reported.append((got, d))
        r['fired'] = self.fired
        r['slept'] = self.clock.slept
        return r

    def check(self):
        """reported pictures that have changed"""
        last = {}
        for p, d in self.reported:
            last.setdefault(p, []).append(d)
        bad = []
        for p, ds in last.items():
            now = self.read(p)
            if any(d != now for d in ds):
                bad.append('a picture that was reported %s has become %s' % (
                    ds, now))
        return bad

    @contextlib.contextmanager
    def dry(self):
        """(in a fork) work on a copy of the disk"""
        old = self.root
        self.root = tempfile.mkdtemp(prefix=os.path.basename(old) + '-',
                                     dir='/tmp')
        shutil.copytree(old, self.root, dirs_exist_ok=True)
        tempfile.tempdir = self.root
        os.environ['TMPDIR'] = self.root
        try:
            yield
        finally:
            shutil.rmtree(self.root, ignore_errors=True)


WORLD = World()


def dried(fn):
    def call(*args):
        with WORLD.dry():
            return fn(*args)
    return call


def do_pic(ses, st):
    WORLD.start(ses)
    if st['do'] == 'check':
        return {'bad': WORLD.check(), 'n': len(WORLD.reported)}
    if 'picks' in st or 'at' in st:
        main = os.getpid()

        def run():
            if os.getpid() != main:
                with WORLD.dry():
                    return WORLD.event(st)
            return WORLD.event(st)
        r, fired, locs = ses.faulted(st, run)
        r['interrupted'] = fired
        if locs is not None:
            r['picks'] = locs
        return r
    return WORLD.event(st)


def do_picproc(ses, st):
    """another process, forked from this one, uses the same disk"""
    WORLD.start(ses)

    WORLD.nproc += 1

    def run():
        # (what the system considers random differs between processes)
        WORLD.entropy.seed(1000 + WORLD.nproc)
        out = [WORLD.event(ev) for ev in st['evs']]
        return [out, WORLD.reported]
    try:
        out, rep = ses.forked(run)
    except ValueError:
        # it died; it may have replaced the files it was asked to
        asked = [WORLD.path(ev.get('path')) for ev in st['evs']]
        WORLD.reported = [x for x in WORLD.reported if x[0] not in asked]
        return {'events': None}
    WORLD.reported = [tuple(x) for x in rep]
    return {'events': out}


def do_picthreads(ses, st):
    WORLD.start(ses)
    WORLD.clock = Clock(st.get('clock') or {})
    WORLD.plan = dict(st.get('fault') or {})
    WORLD.fired = []
    n = len(st['evs'])
    outs = [[None] * len(b) for b in st['evs']]

    def make(i):
        def body(t):
            for j, ev in enumerate(st['evs'][i]):
                outs[i][j] = WORLD.event(ev)
            return True
        return body
    schedule = st.get('schedule', ())
    r = {}
    main = os.getpid()

    def solo(i):
        if os.getpid() != main:
            with WORLD.dry():
                return ses.launch(st, [make(i)], (), True)
        return ses.launch(st, [make(i)], (), True)
    if 'picks' in st:
        schedule = ses.resolve_schedule(st, st['evs'], solo)
        r['schedule'] = schedule
    s = ses.launch(st, [make(i) for i in range(n)], schedule)
    r['bad'] = []
    if s.error or any(x is not True for x in s.results):
        r['bad'].append('threads did not finish: %s %s' % (
            s.error, s.results))
    r['threads'] = outs
    r['switches'] = s.switches
    r['fired'] = WORLD.fired
    return r
