"""Locks of the package under test, owned by the simulator.

A lock the package creates (``threading.Lock`` / ``RLock``, also inside a
``Condition`` or ``Semaphore``) is replaced by one the scheduler understands: a
thread that has to wait hands over to another one, and waiting for a lock nobody
can release any more is a verdict ('hang') instead of a process that stands still.
Locks created by anybody else are the real ones.
"""

import sys
import threading

from .core import SimHang

_real_lock, _real_rlock = threading.Lock, threading.RLock
_is_repo = None
sched = None                  # the scheduler of the running run, if threads are simulated


def _for_package():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and _is_repo(f.f_code)


def _me():
    """Whoever executes now: a simulated thread, or the application itself."""
    return 'main' if sched is None else sched.current


class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        while self._owner is not None:
            if self.reentrant and self._owner is me:
                break
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                blocking = False           # the time is over when the others have had a chance
            elif self._owner is me:
                raise SimHang('deadlock: a lock is taken again by the thread that holds it')
            if not self._wait(me, blocking):
                if blocking:
                    raise SimHang('deadlock: every thread waits for a lock')
                return False
        self._owner = me
        self._count += 1
        return True

    def _wait(self, me, blocking):
        return sched is not None and sched.wait(self, blocking)

    def release(self):
        if self._count == 0 or (self.reentrant and self._owner is not _me()):
            raise RuntimeError('release unlocked lock' if not self.reentrant else 'cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def held_by(self, task):
        return self._owner is task

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._owner is _me()

    def _release_save(self):
        state = self._count
        self._count = 0
        self._owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '%s' object" % ('_thread.RLock' if self.reentrant else '_thread.lock'))

    def __copy__(self):
        return self.__deepcopy__(None)

    def __reduce_ex__(self, protocol):
        return self.__deepcopy__(None)


class SimRLock(SimLock):
    reentrant = True


def _lock():
    return SimLock() if _for_package() else _real_lock()


def _rlock(*args, **kw):
    return SimRLock() if _for_package() else _real_rlock(*args, **kw)


def install(is_repo_code):
    global _is_repo
    _is_repo = is_repo_code
    threading.Lock, threading.RLock = _lock, _rlock
