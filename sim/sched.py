"""Schedule and interrupt control over the real code.

``Sched`` runs caller threads as real OS threads of which exactly one is ever
released; who runs, and where the running one is pre-empted, is decided by
draws on the tape.  Pre-emption points are the source lines of the package under
test - or its single expressions, after ``refine`` - reached through Python's
own trace hook: no change to the code is needed, and no point is named here.

``profile`` and ``interrupt`` observe / break a single call at a chosen point.
"""

import copy
import sys
import threading
import zlib

from . import locks
from .core import Injected, SimAbort, SimHang, Violation
from .loader import fresh, is_repo_code

INF = 1 << 60
FAR = 1 << 59


def _in_destructor(frame):
    while frame is not None and is_repo_code(frame.f_code):
        if frame.f_code.co_name == '__del__':
            return True
        frame = frame.f_back
    return False


def _deeper(frame, limit):
    """More than limit frames of the package are on the stack."""
    n = 0
    while frame is not None:
        if is_repo_code(frame.f_code):
            n += 1
            if n > limit:
                return True
        frame = frame.f_back
    return False


class _Task:
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.error = None
        self.thread = None
        self.bomb = None           # (points left, exception or handler)
        self.waiting = None        # the lock it needs to go on


class Sched:
    def __init__(self, ctx, max_switches=60):
        self.ctx = ctx
        self.max_switches = max_switches
        self.tasks = []
        self.current = None
        self.left = INF
        self.match = None          # None: every point; else a memo of locations
        self.shallow = 0           # >0: only points at most this many calls deep in the package
        self.lockstep = 0          # coming switches after every single step
        self.salt = 0
        self.modulus = 1
        self.abort = False
        self.points = 0
        self.main = threading.Lock()
        self.main.acquire()

    # -- decisions
    def _next_gap(self):
        """How far the newly running thread gets before it is pre-empted."""
        ctx = self.ctx
        if self.lockstep and ctx.switches < self.max_switches:
            self.lockstep -= 1
            self.left = 1
            return
        self.shallow = 0
        if ctx.switches >= self.max_switches:
            self.left = INF
            self.match = None
            return
        how = ctx.pick((0, 1, 2, 3, 4), 'gap.kind', (2, 4, 4, 4, 1 if ctx.switches else 4))
        if how == 0:
            self.left = INF
            self.match = None
        elif how == 1:
            self.match = None
            self.left = 1 + ctx.small(0, 20000, 'gap.steps')
        elif how == 4:
            # the threads advance side by side, one outer step each
            self.match = None
            self.lockstep = 2 + ctx.int(0, 38, 'gap.lockstep')
            self.shallow = 1 + ctx.int(0, 2, 'gap.depth')
            self.left = 1
        elif how == 3:
            # stop between the steps of an API call rather than inside its hot loops
            self.match = None
            self.shallow = 1 + ctx.int(0, 2, 'gap.depth')
            self.left = 1 + ctx.small(0, 60, 'gap.shallow')
        else:
            # stop at the n-th visit of one of a pseudo-random subset of locations
            self.match = {}
            self.salt = ctx.int(0, 0xffff, 'gap.salt')
            self.modulus = (4, 16, 64)[ctx.int(0, 2, 'gap.mod')]
            self.left = 1 + ctx.small(0, 60, 'gap.visits')

    def _others(self):
        return [t for t in self.tasks if not t.done and t is not self.current
                and (t.waiting is None or not t.waiting.locked())]

    def wait(self, lock, lasting):
        """The running thread cannot go on before somebody releases lock; False if nobody is left to."""
        others = self._others()
        if not others:
            return False
        me = self.current
        me.waiting = lock if lasting else None
        self.ctx.probe('waited-for-a-lock')
        self._switch(me, others[self.ctx.int(0, len(others) - 1, 'wait.to')], 'lock')
        me.waiting = None
        return True

    # -- trace hook
    def _trace(self, frame, event, arg):
        if not is_repo_code(frame.f_code):
            return None
        if self.left > FAR and self.match is None and not self.abort and self.current.bomb is None:
            return None        # nothing can happen before this thread ends
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.points += 1
            if self.abort:
                raise SimAbort()
            me = self.current
            if me.bomb is not None:
                n, exc = me.bomb
                me.bomb = (n - 1, exc)
                if n <= 0 and not _in_destructor(frame):
                    me.bomb = None
                    if not isinstance(exc, BaseException):
                        self.ctx.fault('handler', me.index, frame.f_code.co_name)
                        exc()
                        return self._local
                    self.ctx.fault('thread-interrupt.' + type(exc).__name__, me.index, frame.f_code.co_name)
                    raise exc
            if self.match is not None:
                loc = (frame.f_code, frame.f_lineno)
                hit = self.match.get(loc)
                if hit is None:
                    h = zlib.crc32(('%s:%d:%d' % (frame.f_code.co_name, frame.f_lineno,
                                                  self.salt)).encode())
                    hit = self.match[loc] = (h >> 4) % self.modulus == 0
                if not hit:
                    return self._local
            elif self.shallow and _deeper(frame, self.shallow):
                return self._local
            self.left -= 1
            if self.left <= 0:
                self._preempt(frame)
        return self._local

    def _preempt(self, frame):
        others = self._others()
        if not others:
            self.left = INF
            self.match = None
            self.shallow = self.lockstep = 0
            return
        ctx = self.ctx
        me = self.current
        nxt = others[ctx.int(0, len(others) - 1, 'switch.to')]
        ctx.switches += 1
        ctx.faults['preemption'] = ctx.faults.get('preemption', 0) + 1
        self._switch(me, nxt, frame.f_code.co_name)

    def _switch(self, me, nxt, where):
        self.ctx.log('switch', me.index, nxt.index, where, self.points)
        self._next_gap()
        self.current = nxt
        nxt.lock.release()
        me.lock.acquire()
        if self.abort:
            raise SimAbort()

    def inject(self, points, exc):
        """Have the running thread's next call fail with exc after so many points."""
        self.current.bomb = (points, exc)

    def disarm(self):
        """End of the injection; True if it went off (the hook is put back)."""
        me = self.current
        fired = me.bomb is None
        me.bomb = None
        sys.settrace(self._trace)
        return fired

    # -- running
    def _body(self, task):
        task.lock.acquire()
        try:
            if not self.abort:
                sys.settrace(self._trace)
                try:
                    task.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:
            task.error = e
            e.__traceback__ = None
            self.abort = True
        task.done = True
        rest = self._others()
        if not rest and any(not t.done for t in self.tasks):
            # only threads that wait for a lock are left
            if not self.abort:
                task.error = SimHang('deadlock: a lock was never released')
                self.abort = True
            rest = [t for t in self.tasks if not t.done]
        if rest:
            i = 0
            if not self.abort:
                i = self.ctx.int(0, len(rest) - 1, 'end.to')
                self._next_gap()
            self.current = rest[i]
            self.ctx.log('finish', task.index, rest[i].index)
            self.current.lock.release()
        else:
            self.current = None
            self.main.release()

    def run(self, fns):
        self.tasks = [_Task(i, fn) for i, fn in enumerate(fns)]
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        first = self.tasks[self.ctx.int(0, len(self.tasks) - 1, 'first')]
        self.current = first
        locks.sched = self
        self._next_gap()
        first.lock.release()
        try:
            self.main.acquire()
        except SimHang:
            self.abort = True
            self.main.acquire(timeout=5)
            raise
        finally:
            locks.sched = None
        for t in self.tasks:
            t.thread.join()
        self.ctx.sim_time += self.points
        for t in self.tasks:
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                if isinstance(t.error, SimHang):
                    raise t.error
                raise t.error


def refine(ctx, percent):
    """Decide whether this run's copy of the package is loaded with fine-grained points."""
    if not ctx.bulk and ctx.flag(percent, 'fine'):
        ctx.gost = fresh(fine=True)
        ctx.probe('fine-grained')
        return True
    return False


class _Watch:
    """Trace hook that visits every line of one call, outside destructors.

    Python's copy module counts as part of the call: the package clones with it.
    """

    def __init__(self, on_point):
        self.on_point = on_point
        self.in_del = 0

    def trace(self, frame, event, arg):
        if not is_repo_code(frame.f_code) and frame.f_code.co_filename != copy.__file__:
            return None
        if frame.f_code.co_name == '__del__':
            self.in_del += 1
            return self._del_local
        if self.in_del:
            return None
        return self._local

    def _del_local(self, frame, event, arg):
        if event == 'return':
            self.in_del -= 1
        return self._del_local

    def _local(self, frame, event, arg):
        if not self.in_del and event == 'line':
            self.on_point(frame)
        return self._local


def profile(ctx, fn, limit=400000):
    """Run fn; return the list of location ids it passed through."""
    ids = {}
    seq = []

    def point(frame):
        if len(seq) < limit:
            loc = (frame.f_code, frame.f_lineno)
            i = ids.get(loc)
            if i is None:
                i = ids[loc] = len(ids)
            seq.append(i)
    w = _Watch(point)
    sys.settrace(w.trace)
    try:
        ctx.call('profiled call', fn)
    finally:
        sys.settrace(None)
    return seq, len(ids)


def choose_point(ctx, seq, nlocs):
    """Pick one point of a profiled call: uniformly in time, or by location."""
    if not seq:
        return None
    if not ctx.flag(65, 'int.byloc'):
        return ctx.int(0, len(seq) - 1, 'int.at')
    loc = ctx.int(0, nlocs - 1, 'int.loc')
    occ = [i for i, l in enumerate(seq) if l == loc]
    which = ctx.pick((0, 1, 2), 'int.occ')
    if which == 0:
        return occ[0]
    if which == 1:
        return occ[-1]
    return occ[ctx.int(0, len(occ) - 1, 'int.nth')]


def interrupt(ctx, fn, at, exc):
    """Run fn and raise exc at its at-th point.  Returns (fired, value, exception)."""
    state = {'n': 0, 'where': None}

    def point(frame):
        n = state['n']
        state['n'] = n + 1
        if n == at:
            state['where'] = frame.f_code.co_name
            raise exc
    w = _Watch(point)
    value = err = None
    ctx.steps += 1
    sys.settrace(w.trace)
    try:
        value = fn()
    except (Violation, SimAbort, SimHang):
        raise
    except BaseException as e:
        err = e
        e.__traceback__ = None
        e.__context__ = None
    finally:
        sys.settrace(None)
    fired = state['where'] is not None
    if fired:
        ctx.fault('interrupt.' + type(exc).__name__, state['where'], at)
    if err is not None and not (fired and err is exc) and not isinstance(err, Injected):
        # the interrupt was translated into, or masked by, another error
        ctx.log('interrupt-surfaced-as', type(err).__name__)
    return fired, value, err


def step_budget(ctx, label, fn, calls):
    """Run fn; more than ``calls`` Python calls inside the package is a hang."""
    state = {'n': 0}

    def trace(frame, event, arg):
        if is_repo_code(frame.f_code):
            state['n'] += 1
            if state['n'] > calls:
                raise SimHang('%s did not finish within %d calls' % (label, calls))
        return None
    sys.settrace(trace)
    try:
        r = ctx.attempt(label, fn)
    finally:
        sys.settrace(None)
    ctx.sim_time += state['n']
    return r
