"""Deterministic thread scheduler.

The threads are real, but only the one holding the baton runs.  Every line (or every bytecode) executed in the
library is a scheduling point, reported by the interpreter's monitor; the plan's segments decide after how many of
them the baton moves on, and to whom."""

import _thread
import threading

from . import locks, points


class Deadlock(BaseException):
    pass


class Budget(BaseException):
    pass


class Scheduler:
    """segments: list of [thread, events]; afterwards the threads run to completion in order."""

    def __init__(self, bodies, segments, fine=False, budget=2_000_000):
        self.bodies, self.segments, self.fine = bodies, list(segments), fine
        n = len(bodies)
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.done = [False] * n
        self.ident = {}
        self.cur, self.left = None, 0
        self.events = [0] * n
        self.total = 0
        self.budget = budget
        self.switches = []  # (from, to, where): the preemptions that happened
        self.where = [None] * n  # last event of each thread
        self.idle = 0  # consecutive blocked() without any event
        self.results = [None] * n
        self.errors = [None] * n
        self.dead = None
        self.inside = [0] * n

    # ------------------------------------------------------------------ scheduling points

    def on_event(self, code, where):
        me = self.ident.get(_thread.get_ident())
        if me is not None and not self.done[me]:
            self.point(me, code, where)

    def point(self, me, code, where):
        if self.dead:
            raise self.dead
        self.idle = 0
        self.events[me] += 1
        self.total += 1
        if self.total > self.budget:
            self.dead = Budget("step budget exhausted")
            raise self.dead
        self.left -= 1
        if self.left <= 0:
            self.where[me] = (code.co_qualname, where)
            self.move_on(me, "preempt")

    # ------------------------------------------------------------------ baton

    def next_segment(self):
        """The next thread to run: from the plan while it lasts, then in order."""
        while self.segments:
            t, n = self.segments.pop(0)
            if 0 <= t < len(self.done) and not self.done[t] and n > 0:
                return t, n
        for t, d in enumerate(self.done):
            if not d:
                return t, 1 << 60
        return None, 0

    def move_on(self, me, why, other=None):
        if other is None:
            t, n = self.next_segment()
        else:
            t, n = other, 40
        if t is None:
            self.finished.release()
            return
        self.left = n
        if t == me:
            return
        if why == "preempt":
            self.switches.append((me, t, *self.where[me], (self.where[t] or [None])[0]))
        self.cur = t
        mine = not self.done[me]
        self.gates[t].release()
        if mine:
            self.gates[me].acquire()
            if self.dead:
                raise self.dead

    def is_mine(self):
        return _thread.get_ident() in self.ident

    def blocked(self):
        """The running thread cannot go on until another one releases a lock."""
        me = self.ident[_thread.get_ident()]
        self.idle += 1
        others = [t for t in range(len(self.done)) if not self.done[t] and t != me]
        if not others or self.idle > 2 * len(self.done) + 2:
            self.dead = self.dead or Deadlock("every thread waits for a lock")
            raise self.dead
        later = [t for t in others if t > me] or others
        self.where[me] = ("lock", 0)
        self.move_on(me, "blocked", later[0])

    # ------------------------------------------------------------------ threads

    def body(self, me):
        self.ident[_thread.get_ident()] = me
        self.ready.release()
        self.gates[me].acquire()
        try:
            self.results[me] = self.bodies[me]()
        except BaseException as e:
            self.errors[me] = e
        self.done[me] = True
        if self.dead:
            # let the others die as well
            rest = [t for t in range(len(self.done)) if not self.done[t]]
            if rest:
                self.gates[rest[0]].release()
            else:
                self.finished.release()
        else:
            self.move_on(me, "end")
        self.exit.acquire()
        self.exit.release()

    def run(self):
        points.install(self.on_event, self.fine, host=True)
        self.ready, self.exit = _thread.allocate_lock(), _thread.allocate_lock()
        self.ready.acquire()
        self.exit.acquire()
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        # thread start-up and end use locks that are not simulated: no scheduler is current then
        for t in threads:
            t.start()
            self.ready.acquire()
        t, n = self.next_segment()
        if t is not None:
            locks.CURRENT = self
            self.cur, self.left = t, n
            self.gates[t].release()
            self.finished.acquire()
            locks.CURRENT = None
        self.exit.release()
        for t in threads:
            t.join()
        points.remove()
