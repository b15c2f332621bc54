"""
A scheduler of threads that runs one at a time and decides at each step (a line or a bytecode instruction of the code under test) which
thread goes on. It relies on trace functions only, so it works for whatever locks the code under test uses: a thread that makes no
progress for a while is taken to wait for a lock held by another and leaves the turn to the others.
"""

import _thread
import os
import sys
import threading
import time

TICK = 0.004
PATIENCE = 25.0


class Deadlock(Exception):
    pass


class OneSwitch:
    "Runs thread `first` for a number of steps, then all the others to their end, then the rest."

    def __init__(self, order, steps):
        self.order, self.steps = order, steps

    def choose(self, s, current):
        first = self.order[0]
        if s.count[first] < self.steps and first in s.ready:
            return first
        for t in self.order[1:]:
            if t in s.ready:
                return t
        return first


class TwoSwitches:
    "Runs the first thread for a number of steps, the second for a number of steps, then the first to its end, then the others."

    def __init__(self, order, steps, more):
        self.order, self.steps, self.more = order, steps, more

    def choose(self, s, current):
        a, b = self.order[:2]
        if s.count[a] < self.steps and a in s.ready:
            return a
        if s.count[b] < self.more and b in s.ready:
            return b
        for t in self.order:
            if t in s.ready:
                return t
        return current


class Walk:
    "Switches with a given probability."

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def choose(self, s, current):
        if current in s.ready and self.rng.random() >= self.p:
            return current
        return self.rng.choice(sorted(s.ready))


class Priorities:
    "Random priorities that change at random steps."

    def __init__(self, rng, n, length, changes):
        self.order = list(range(n))
        rng.shuffle(self.order)
        self.points = {rng.randrange(1, max(2, length)) for _ in range(changes)}

    def choose(self, s, current):
        if s.total in self.points and current in self.order:
            self.order.remove(current)
            self.order.append(current)
        for t in self.order:
            if t in s.ready:
                return t
        return current


class Scheduler:
    def __init__(self, prefix, jobs, policy, opcodes=False):
        self.prefix, self.jobs, self.policy, self.opcodes = prefix, jobs, policy, opcodes
        n = len(jobs)
        self.mutex = _thread.allocate_lock()
        self.gate = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.ready = set(range(n))
        self.alive = set(range(n))
        self.turn = None
        self.count = [0] * n
        self.total = 0
        self.results = [None] * n
        self.switches = []
        self.waits = 0
        self.done = threading.Event()

    # all of these are called with the mutex held

    def give(self, t):
        self.turn = t
        if t is not None:
            self.gate[t].release()

    def next(self, current):
        if not self.ready:
            return None
        t = self.policy.choose(self, current)
        return t if t in self.ready else min(self.ready)

    # called by the threads

    def point(self, me, where):
        self.mutex.acquire()
        self.count[me] += 1
        self.total += 1
        if self.turn == me:
            t = self.next(me)
            if t == me:
                self.mutex.release()
                return
            self.switches.append((me, t, where))
            self.give(t)
        else:
            # waited for a lock and got it while others had the turn
            self.ready.add(me)
            if self.turn is None:
                self.turn = me
                self.mutex.release()
                return
        self.mutex.release()
        self.gate[me].acquire()

    def thread(self, me):
        prefix, opcodes, point = self.prefix, self.opcodes, self.point

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                point(me, (frame.f_code.co_name, frame.f_lineno))
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        self.gate[me].acquire()
        sys.settrace(trace)
        try:
            self.results[me] = self.jobs[me]()
        except BaseException as e:
            self.results[me] = ("failed", repr(e))
        finally:
            sys.settrace(None)
            with self.mutex:
                self.alive.discard(me)
                self.ready.discard(me)
                self.total += 1
                if self.turn == me:
                    t = self.next(me)
                    self.give(t)
                if not self.alive:
                    self.done.set()

    def run(self):
        n = len(self.jobs)
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        with self.mutex:
            self.give(self.next(0))
        seen, still, since = -1, 0, time.monotonic()
        while not self.done.wait(TICK):
            with self.mutex:
                if self.total != seen:
                    seen, still, since = self.total, 0, time.monotonic()
                    continue
                still += 1
                if still >= 2 and self.turn is not None and self.turn in self.alive:
                    others = self.ready - {self.turn}
                    if others:
                        self.waits += 1
                        self.ready.discard(self.turn)
                        self.give(self.next(self.turn))
                        still = 0
                elif still >= 2 and self.turn is None and self.ready:
                    self.give(self.next(min(self.ready)))
                if time.monotonic() - since > PATIENCE:
                    raise Deadlock(f"threads {sorted(self.alive)} of {n} wait for each other after {self.total} steps; {stacks(threads)}")
        return self.results


def stacks(threads):
    out = []
    frames = sys._current_frames()
    for i, t in enumerate(threads):
        f = frames.get(t.ident)
        while f is not None and "strong_typing" not in f.f_code.co_filename:
            f = f.f_back
        if f is not None:
            out.append(f"thread {i} is at {os.path.basename(f.f_code.co_filename)}:{f.f_lineno} in {f.f_code.co_name}")
    return "; ".join(out)
