"""Locks under the simulator's control.

The code under test must never block for real while the simulator decides who runs.  Locks created after
`install()` delegate to real locks; when a simulated thread would block on one, it tells the scheduler instead.
Outside a simulation they behave exactly like the originals."""

import _thread
import threading

CURRENT = None  # the active scheduler (sim.threads), if any


class _Sim:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        sched = CURRENT
        if sched is None or not blocking or not sched.is_mine():
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            sched.blocked()
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def install():
    threading.Lock = lambda: _Sim(_thread.allocate_lock())
    threading.RLock = lambda *a, **k: _Sim(_thread.RLock())
