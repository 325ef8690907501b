"""Controlled scheduler: runs thread bodies under an explicit schedule of (thread, number of source lines) segments.

A preemption point is every line executed inside /repo/opt_einsum (mode "lines"), and every access to an attribute or
dict of a watched shared object (see mc.spy); mode "accesses" uses only the latter.  Exactly one
thread runs at a time; a thread that blocks on a real lock held by a paused thread is detected by lack of progress
and the next thread of the schedule is resumed, so that code that does use locks is explored as well.
"""

import sys
import threading

PREFIX = "/repo/opt_einsum/"
SPY = __file__.replace("sched.py", "spy.py")
BLOCK_S = 0.15


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, bodies, accesses=False, prefixes=None):
        self.n = len(bodies)
        self.prefixes = (SPY,) if accesses else prefixes or (PREFIX, SPY)
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.back = threading.Semaphore(0)
        self.active = None
        self.budget = None
        self.steps = [0] * self.n
        self.done = [False] * self.n
        self.waiting = [True] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.threads = [threading.Thread(target=self._main, args=(k, b), daemon=True) for k, b in enumerate(bodies)]
        self.segments_used = 0
        for t in self.threads:
            t.start()

    def _main(self, k, body):
        self.go[k].acquire()
        self.waiting[k] = False
        sys.settrace(self._tracer(k))
        try:
            self.result[k] = body()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.back.release()

    def _pause(self, k):
        self.waiting[k] = True
        self.back.release()
        self.go[k].acquire()
        self.waiting[k] = False

    def _tracer(self, k):
        def local(frame, event, arg):
            if event == "line":
                if self.active != k:
                    # was blocked while somebody else was resumed: wait for a turn
                    self._pause(k)
                elif self.budget is not None and self.budget <= 0:
                    self._pause(k)
                self.steps[k] += 1
                if self.budget is not None:
                    self.budget -= 1
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefixes):
                return local
            return None

        return tracer

    def segment(self, k, budget):
        """Let thread k run `budget` steps (None: to completion).  True if it is done, False if paused or blocked."""
        if self.done[k]:
            return True
        self.active, self.budget = k, budget
        if self.waiting[k]:
            self.go[k].release()
        last, stuck = -1, 0
        while True:
            if self.back.acquire(timeout=BLOCK_S):
                if self.done[k] or self.waiting[k]:
                    return self.done[k]
                continue  # a message of another thread that was blocked earlier
            if self.done[k]:
                return True
            if self.steps[k] == last:
                stuck += 1
                if stuck >= 2:
                    return False  # blocked
            last = self.steps[k]

    def finish(self, order):
        """Run all threads to completion."""
        for _ in range(4 * self.n):
            for k in order:
                self.segment(k, None)
            if all(self.done):
                break
        else:
            raise Deadlock(f"threads {[k for k in range(self.n) if not self.done[k]]} never finish")
        self.active = None
        for t in self.threads:
            t.join(5)


def execute(bodies, schedule, accesses=False, prefixes=None):
    """Run under the schedule [(thread, budget), ...] then everything to completion in thread order of the schedule.

    Returns (run, flags) where flags[i] says whether segment i ended by completion of its thread.
    """
    r = Run(bodies, accesses, prefixes)
    flags = [r.segment(k, b) for k, b in schedule]
    order = [k for k, _ in schedule]
    order += [k for k in range(r.n) if k not in order]
    seen = []
    for k in order:
        if k not in seen:
            seen.append(k)
    r.finish(seen)
    return r, flags
