"""Cooperative scheduling of real threads.

Every simulated client is a real thread, but exactly one of them runs at any
time: threads are parked at *switch points* (function entries and source lines
inside qnet code, observed through sys.monitoring) and released one at a time.
The order is decided by an explicit schedule, so a run is a pure function of
the schedule.
"""
import dis
import sys
import threading
import _thread

_real_lock = threading.Lock
_real_rlock = threading.RLock

CURRENT = None     # the active Scheduler


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class SimLock:
    """Lock used by qnet code: under simulation, blocking is a scheduling
    decision; otherwise it is an ordinary lock."""
    reentrant = False

    def __init__(self):
        self._real = _real_rlock() if self.reentrant else _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = _thread.get_ident()
        if s is None or me not in s.by_ident:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (
                self.reentrant and self._owner == me):
            if not blocking:
                return False
            s.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = CURRENT
        me = _thread.get_ident()
        if s is None or me not in s.by_ident:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (
            hasattr(self._real, 'locked') and self._real.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _caller_is_qnet(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get('__name__', '').startswith('qnet')


def install_lock_seam():
    def Lock():
        return SimLock() if _caller_is_qnet() else _real_lock()

    def RLock():
        return SimRLock() if _caller_is_qnet() else _real_rlock()
    threading.Lock = Lock
    threading.RLock = RLock


_STORES = {}


def stores(code):
    """may the code change something that outlives the call?"""
    if code not in _STORES:
        ops = {i.opname for i in dis.get_instructions(code)}
        _STORES[code] = 0 if code.co_name == '__init__' else 2 if (
            ops & {'STORE_ATTR', 'STORE_GLOBAL', 'DELETE_ATTR',
                   'DELETE_GLOBAL'}) else int(bool(
                       ops & {'STORE_SUBSCR', 'DELETE_SUBSCR'}))
    return _STORES[code]


class Locations:
    """code locations reached, with an even sample of their occurrences"""

    def __init__(self):
        self.locs = {}

    def add(self, where, k, code):
        e = self.locs.get(where)
        if e is None:
            self.locs[where] = [k, 1, [k], 1, code]
            return
        e[1] += 1
        if e[1] % e[3] == 0:
            e[2].append(k)
            if len(e[2]) == 24:
                del e[2][1::2]
                e[3] *= 2

    def rows(self):
        """[location, number of occurrences, sample of them, stores]"""
        return [[':'.join(str(x) for x in where), e[1], e[2], stores(e[4])]
                for where, e in self.locs.items()]


def hot_rows(rows, p):
    """the rows to choose from: those of one function that may change shared
    state, if the pick asks for it"""
    if 'hot' not in p:
        return rows
    fns = {}
    for e in rows:
        if e[3] >= p['hot']:
            fns.setdefault(':'.join(e[0].split(':')[-3:-1]), []).append(e)
    return fns[sorted(fns)[int(p['f'] * len(fns))]] if fns else rows


class Scheduler:
    """Runs `bodies` (callables) as threads under a schedule.

    schedule: list of [thread, k, target]: when `thread` reaches its k-th
    switch point, control is passed to `target` (if it can run).  When a thread
    finishes or blocks, the next runnable thread in cyclic order continues.
    A switch point counts only while the thread is inside a library call.
    """

    def __init__(self, bodies, schedule, first=0, record=False,
                 max_points=4000000):
        self.bodies = bodies
        self.schedule = {}
        for t, k, u in schedule:
            self.schedule[(int(t), int(k))] = int(u)
        self.n = len(bodies)
        self.gates = [_real_lock() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.done_gate = _real_lock()
        self.done_gate.acquire()
        self.state = ['ready'] * self.n     # ready / blocked / done
        self.waiting = [None] * self.n
        self.by_ident = {}
        self.current = first
        self.first = first
        self.inside = [False] * self.n
        self.counts = [0] * self.n
        self.max_points = max_points
        self.switches = []
        self.results = [None] * self.n
        self.error = None
        self.locs = Locations() if record else None

    # -- called from threads ------------------------------------------------
    def enter(self):
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.inside[t] = True

    def leave(self):
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.inside[t] = False

    def point(self, kind, code, pos):
        """a switch point in the running thread"""
        me = self.current
        if not self.inside[me] or self.by_ident.get(
                _thread.get_ident()) != me:
            return
        k = self.counts[me]
        self.counts[me] = k + 1
        if self.locs is not None:
            self.locs.add((me, kind, code.co_filename[14:], code.co_name,
                           pos), k, code)
        t = self.schedule.get((me, k))
        if t is not None:
            if t != me and t < self.n and self.runnable(t):
                self.switches.append([me, k, t, '%s:%s:%s:%s' % (
                    kind, code.co_filename[14:], code.co_name, pos)])
                self.pass_to(t, me)
        elif k > self.max_points:
            self.error = 'no progress within %d switch points' % k
            raise _Abort()

    def runnable(self, t):
        st = self.state[t]
        if st == 'ready':
            return True
        if st == 'blocked':
            return self.waiting[t]._owner is None
        return False

    def pass_to(self, t, me):
        self.current = t
        if self.state[t] == 'blocked':
            self.state[t] = 'ready'
        self.gates[t].release()
        self.gates[me].acquire()
        if self.error:
            raise _Abort()

    def block(self, lock):
        me = self.by_ident[_thread.get_ident()]
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        t = self.next_runnable(me)
        if t is None:
            self.error = 'deadlock'
            raise _Abort()
        self.switches.append([me, self.counts[me], t, 'blocked on a lock'])
        self.pass_to(t, me)
        self.state[me] = 'ready'

    def next_runnable(self, me):
        for d in range(1, self.n + 1):
            t = (me + d) % self.n
            if t != me and self.runnable(t):
                return t
        return None

    def _body(self, t):
        self.gates[t].acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.error:
                self.results[t] = self.bodies[t](t)
        except _Abort:
            self.results[t] = ['aborted']
        except BaseException as exc:   # harness error inside a body
            self.results[t] = ['thread-died', type(exc).__name__, str(exc)]
        self.state[t] = 'done'
        nxt = None
        if not self.error:
            nxt = self.next_runnable(t)
            if nxt is None and any(s != 'done' for s in self.state):
                self.error = 'deadlock'
        if self.error:
            left = [i for i in range(self.n) if self.state[i] != 'done']
            nxt = left[0] if left else None
        if nxt is None:
            self.done_gate.release()
        else:
            self.current = nxt
            if self.state[nxt] == 'blocked':
                self.state[nxt] = 'ready'
            self.gates[nxt].release()

    def run(self):
        global CURRENT
        CURRENT = self
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True)
                   for t in range(self.n)]
        for th in threads:
            th.start()
        self.gates[self.first].release()
        self.done_gate.acquire()
        for th in threads:
            th.join()
        CURRENT = None
        return self.results
