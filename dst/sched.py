"""Deterministic threads, and exceptions that arrive at a chosen instruction.

Real threads, of which exactly one runs at a time: each gives the baton back at
every line (or bytecode) of the code under test and at every call of a
simulated stream, and the plan says who goes on.  Locks the code under test
makes are replaced while it is imported, so that waiting is a scheduling
decision too.
"""
import os
import sys
import threading
import types
import zlib

from . import core

_Lock, _RLock = threading.Lock, threading.RLock
_current = None                 # the Threads object that is running, if any
LONE = []                       # not empty: nobody else can release a lock
BASE = None
MON, TOOL = sys.monitoring, 4


def base():
    global BASE
    if BASE is None:
        BASE = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
    return BASE


OWN = set()                     # functions that differ from those of the unchanged tree
_hot = {}


def hot(code, place, choice):
    """is this line (or bytecode) of a function one of those chosen?  choice is
    [m, h]: about one in m is; [m, h, 1]: more of functions that differ from those
    of the unchanged tree"""
    k = code, place
    if k not in _hot:
        _hot[k] = zlib.crc32(f'{code.co_qualname}:{place}'.encode())
    m, h = choice[:2]
    if len(choice) > 2 and code.co_qualname.split('.<locals>')[0] in OWN:
        m = max(1, m // 16)
        h %= m
    return _hot[k] % m == h


class CoLock:
    """threading.Lock, except that simulated threads wait by yielding"""

    def __init__(self):
        self._l = self._make()

    _make = staticmethod(_Lock)

    def acquire(self, blocking=True, timeout=-1):
        t = _current
        if t is None or not t.mine():
            if LONE and not self._l.acquire(False):
                if blocking and timeout == -1:
                    raise core.Violation('deadlock', 'the only thread waits for a lock it holds')
                return False
            return bool(LONE) or self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout == 0:
                return False
            t.wait()
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def locked(self):
        return self._l.locked()


class CoRLock(CoLock):
    _make = staticmethod(_RLock)


def seam():
    """the threading module as the code under test sees it"""
    m = types.ModuleType('threading')
    m.__dict__.update(threading.__dict__)
    m.Lock, m.RLock = CoLock, CoRLock
    return m


class Threads:
    def __init__(self, ctx, switches, grain='line', max_steps=400_000, hot=None, most=300):
        """switches: [[steps since the last one, who]]: after so many steps, go
        on with the who-th (modulo their number) runnable thread; hot: besides,
        at certain lines always let the next one go on, up to most times"""
        self.ctx, self.max_steps = ctx, max_steps
        self.switches = iter(switches)
        self.grain, self.hot, self.most = grain, hot, most
        self.steps = self.switched = 0
        self.left = None
        self.dead = None
        self.threads, self.fns, self.sems, self.done, self.errors = [], [], [], [], []
        self.cur = 0
        self.main = threading.Semaphore(0)
        self._next()

    def _next(self):
        s = next(self.switches, None)
        self.left, self.who = s if s is not None else (None, 0)

    def spawn(self, fn):
        n = len(self.fns)
        self.fns.append(fn)
        self.sems.append(threading.Semaphore(0))
        self.done.append(False)
        self.errors.append(None)
        th = threading.Thread(target=self._body, args=(n,), daemon=True)
        self.threads.append(th)

    def mine(self):
        return threading.current_thread() in self.threads

    def _body(self, n):
        self.sems[n].acquire()
        try:
            if not self.dead:
                if self.grain == 'line':
                    sys.settrace(self._trace)
                self.fns[n]()
        except BaseException as e:      # noqa: BLE001
            self.errors[n] = e
        finally:
            sys.settrace(None)
        self.done[n] = True
        live = [k for k, d in enumerate(self.done) if not d]
        if not live:
            self.main.release()
            return
        nxt = live[0]
        if not self.dead and self.left is not None:
            nxt = live[self.who % len(live)]
            self._next()
        self.cur = nxt
        self.sems[nxt].release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(base()):
            return None
        self.point()
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point(frame.f_code, frame.f_lineno - frame.f_code.co_firstlineno)
        return self._local

    def _instruction(self, code, offset):
        if not code.co_filename.startswith(base()):
            return MON.DISABLE
        if threading.current_thread() in self.threads:
            self.point(code, offset)

    def point(self, code=None, place=0):
        """a place where the scheduler may let somebody else go on"""
        if self.dead:
            raise self.dead
        self.steps += 1
        if self.steps > self.max_steps:
            self.dead = core.Violation('no-progress', f'threads still running after {self.steps} steps')
            raise self.dead
        if self.hot and code and self.most and hot(code, place, self.hot):
            self.most -= 1
            live = [k for k, d in enumerate(self.done) if not d]
            self._to(live[(live.index(self.cur) + 1) % len(live)])
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            who = self.who
            self._next()
            live = [k for k, d in enumerate(self.done) if not d]
            self._to(live[who % len(live)])

    def wait(self):
        """the running thread cannot go on: let the next one"""
        self.steps += 1
        if self.steps > self.max_steps:
            self.dead = core.Violation('no-progress', 'threads wait for each other')
        if self.dead:
            raise self.dead
        live = [k for k, d in enumerate(self.done) if not d]
        self._to(live[(live.index(self.cur) + 1) % len(live)])

    def _to(self, n):
        me = self.cur
        if n == me:
            return
        self.switched += 1
        self.cur = n
        self.ctx.log('switch', self.steps, me, n)
        self.sems[n].release()
        self.sems[me].acquire()
        if self.dead:
            raise self.dead

    def run(self):
        """-> the exception each thread ended with, or None"""
        global _current
        _current = self
        if self.grain == 'op':
            MON.use_tool_id(TOOL, 'dst')
            MON.register_callback(TOOL, MON.events.INSTRUCTION, self._instruction)
            MON.set_events(TOOL, MON.events.INSTRUCTION)
        try:
            for t in self.threads:
                t.start()
            self.sems[0].release()
            self.main.acquire()
        except BaseException as e:
            self.dead = e
            raise
        finally:
            _current = None
            if self.grain == 'op':
                MON.set_events(TOOL, 0)
                MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
                MON.free_tool_id(TOOL)
        for t in self.threads:
            t.join()
        self.ctx.fault('thread-switch', self.switched)
        if isinstance(self.dead, core.Violation):
            raise self.dead
        for e in self.errors:
            if isinstance(e, core.Violation):
                raise e
        return self.errors


def gen_switches(rng, spread=600):
    """many close switches, a few well-placed ones, or round-robin"""
    r = rng.random()
    if r < .35:
        return [[rng.randrange(1, spread), rng.randrange(6)] for _ in range(rng.randrange(1, 5))]
    if r < .75:
        top = rng.choice((2, 5, 20, 80))
        return [[rng.randrange(1, top + 1), rng.randrange(6)] for _ in range(rng.choice((30, 100, 250)))]
    gap = rng.choice((1, 1, 2, 3, 7))
    return [[gap, k] for k in range(rng.choice((100, 400)))]


def gen_hot(rng):
    """lines at which each thread stops until the others got there too"""
    if rng.random() < .5:
        return None
    m = rng.choice((7, 20, 50, 50, 120))
    return [m, rng.randrange(m)] + ([1] if OWN and rng.random() < .5 else [])


class Interrupt:
    """with Interrupt(k, exc): exc is raised at the k-th line of the code under
    test (counted from 0) that the block executes"""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False
        self.where = None

    def _local(self, frame, event, arg):
        if event == 'line':
            n, self.n = self.n, self.n + 1
            if n == self.k:
                self.fired = True
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                raise self.exc
        return self._local

    def _glob(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(base()) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *_):
        sys.settrace(self.old)
        return False


class Signals:
    """with Signals(at, handler): handler(k) is called when the block has executed
    at[k] lines of the code under test, in the middle of them, as a signal handler
    is; what it executes itself does not count.  hot: at certain lines it is called
    as well, up to most times.  For C24."""

    def __init__(self, at, handler, hot=None, most=8):
        self.hot, self.most, self.hits = hot, most, 0
        self.at, self.handler, self.n, self.k = sorted(at), handler, 0, 0
        self.error = None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            while self.k < len(self.at) and self.n > self.at[self.k]:
                k, self.k = self.k, self.k + 1
                self._call(k)
            c = frame.f_code
            if self.hot and self.most and self.at and hot(c, frame.f_lineno - c.co_firstlineno, self.hot):
                self.most -= 1
                self.hits += 1
                self._call(self.hits % len(self.at))
        return self._local

    def _call(self, k):
        try:
            self.handler(k)
        except BaseException as e:      # noqa: BLE001
            self.error = self.error or e

    def _glob(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(base()) else None

    def __enter__(self):
        LONE.append(self)
        self.old = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *_):
        sys.settrace(self.old)
        LONE.pop()
        if self.error:
            raise self.error
        return False
