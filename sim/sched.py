"""Threads under the simulator: real threads that run one at a time.  A baton decides who; it changes hands only at the
interruption points (sim/points.py) and lock operations that the case lists, or when the running thread blocks or ends.
"""
import _thread
import threading

from . import points
from .env import HarnessError

active = None
_orig = None


class Stop(BaseException):
    pass


class SimRLock:
    """a reentrant lock of the simulator; outside simulated threads it behaves like one used by a single thread"""
    reentrant = True

    def __init__(self):
        self.owner, self.count = None, 0

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = active
        if s is not None and s.mine():
            s.point('lock.acquire')
            while not self._free(me):
                if not blocking or (timeout >= 0 and not s.others()):
                    return False
                s.block(self)
        elif not self._free(me):
            if not blocking or timeout >= 0:
                return False
            raise HarnessError('a lock is waited for outside the simulated threads')
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if active is not None:
                active.wake(self)
        if active is not None and active.mine():
            active.point('lock.release')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # for threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = self.count
        self.count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimLock(SimRLock):
    reentrant = False


def install_locks():
    """locks that the code under test creates from now on belong to the simulator"""
    global _orig
    if _orig is None:
        _orig = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, SimRLock


def uninstall_locks():
    pass        # locks may also be created later, with an atom; the simulated ones work everywhere


class Scheduler:
    def __init__(self, programs, switches=(), record=False):
        """switches: {(thread, local point number): thread to go to}"""
        self.n = len(programs)
        self.programs = programs
        self.switches = dict(switches)
        self.sem = [_thread.allocate_lock() for _ in programs]
        self.main = _thread.allocate_lock()
        for s in self.sem + [self.main]:
            s.acquire()
        self.state = ['ready'] * self.n
        self.wait = [None] * self.n
        self.count = [0] * self.n
        self.result = [None] * self.n
        self.sites = [[] for _ in programs] if record else None
        self.ident = {}
        self.trace = []         # (from, point, site, to): every change of the running thread
        self.deadlock = None
        self.limit = 3000000

    # ---- called by simulated threads
    def mine(self):
        return _thread.get_ident() in self.ident

    def others(self):
        me = self.ident[_thread.get_ident()]
        return any(s == 'ready' for i, s in enumerate(self.state) if i != me)

    def __call__(self, code, off):
        me = self.ident.get(_thread.get_ident())
        if me is not None:
            self._point(me, (code, off))

    def point(self, name):
        self._point(self.ident[_thread.get_ident()], name)

    def _point(self, me, where):
        k = self.count[me]
        self.count[me] = k + 1
        if self.sites is not None:
            self.sites[me].append(where)
        to = self.switches.get((me, k))
        if to is not None and to != me and self.state[to] == 'ready':
            self._go(me, to, where)
        elif k > self.limit:
            raise Stop()

    def _name(self, where):
        return where if isinstance(where, str) else points.site(*where)

    def _go(self, me, to, where):
        self.trace.append((me, self.count[me], self._name(where), to))
        self.sem[to].release()
        self.sem[me].acquire()

    def block(self, lock):
        me = self.ident[_thread.get_ident()]
        self.state[me], self.wait[me] = 'blocked', lock
        to = self._next(me)
        if to is None:
            self.deadlock = [i for i, s in enumerate(self.state) if s == 'blocked']
            self.main.release()
            self.sem[me].acquire()      # for ever
        self._go(me, to, 'blocked')

    def wake(self, lock):
        for i, l in enumerate(self.wait):
            if l is lock:
                self.state[i], self.wait[i] = 'ready', None

    def _next(self, me):
        for d in range(1, self.n + 1):
            i = (me + d) % self.n
            if self.state[i] == 'ready':
                return i
        return None

    def _thread(self, me):
        self.sem[me].acquire()
        self.ident[_thread.get_ident()] = me
        try:
            self.result[me] = ('ok', self.programs[me]())
        except BaseException as e:
            import traceback
            self.result[me] = ('exc', type(e).__name__, str(e), traceback.format_exc()[-2500:])
        del self.ident[_thread.get_ident()]
        self.state[me] = 'done'
        to = self._next(me)
        if to is not None:
            self.trace.append((me, self.count[me], 'done', to))
            self.sem[to].release()
        else:
            b = [i for i, s in enumerate(self.state) if s == 'blocked']
            if b:
                self.deadlock = b
            self.main.release()

    def run(self, first=0):
        global active
        for i in range(self.n):
            _thread.start_new_thread(self._thread, (i,))
        active = self
        points.handler(self)
        try:
            self.sem[first].release()
            self.main.acquire()
        finally:
            points.handler(None)
            active = None
        return self
