"""A baton scheduler: seeded preemption of threads at executed library lines.

Exactly one thread runs at any time.  A schedule is a list of [thread, quantum]; a thread
runs until it has executed ``quantum`` library lines (0: until its current step is done)
and then hands the baton back.  After the list the threads run to completion in turn.
"""
from __future__ import annotations

import sys
import threading

from . import sut
from .core import Violation


class Stuck(Exception):
    pass


class Sched:
    def __init__(self, bodies, swap):
        """bodies: functions of a ``step`` callback; swap(old, new) switches the random source."""
        self.n = len(bodies)
        self.bodies = bodies
        self.swap = swap
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.main = threading.Semaphore(0)
        self.done = [False] * self.n
        self.error = [None] * self.n
        self.left = 0
        self.boundary = False
        self.prefix = sut.REPO_SRC
        self.switches = 0
        self.inside = 0
        self.where = [None] * self.n

    def _body(self, i):
        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.prefix):
                return None
            if event == "line" and not self.boundary:
                self.left -= 1
                if self.left <= 0:
                    self.inside += 1
                    self.where[i] = frame.f_code.co_name
                    self._pause(i)
            return trace

        def step():
            if self.boundary:
                self.where[i] = None
                self._pause(i)

        self.sem[i].acquire()
        sys.settrace(trace)
        try:
            self.bodies[i](step)
        except BaseException as e:  # noqa: B902
            self.error[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.main.release()

    def _pause(self, i):
        self.main.release()
        self.sem[i].acquire()

    def _go(self, i, quantum):
        self.left, self.boundary = quantum, quantum == 0
        self.swap(i)
        self.sem[i].release()
        if not self.main.acquire(timeout=200):
            raise Stuck(f"thread {i} does not return the baton")
        self.switches += 1

    def run(self, schedule, observe=lambda where: None):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        for i, q in schedule:
            i %= self.n
            if not self.done[i]:
                self._go(i, max(0, q))
                observe(tuple(self.where))
        while not all(self.done):
            for i in range(self.n):
                if not self.done[i]:
                    self._go(i, 10**9)
        for t in ts:
            t.join(10)
        for e in self.error:
            if e is not None:
                raise e


__all__ = ["Sched", "Stuck", "Violation"]
