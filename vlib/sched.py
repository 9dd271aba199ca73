"""A deterministic scheduler for real threads: exactly one runs at a time, and
control passes to a randomly chosen one at byte code boundaries of library code
(and of user functions), as often as asked."""
import random
import sys
import threading

from .env import SRC


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, rng, prob):
        self.rng = random.Random(rng.random())
        self.prob = prob
        self.sems = {}
        self.alive = []
        self.switches = 0
        self.points = 0
        self.trace_hash = 0

    def point(self):
        self.points += 1
        if self.rng.random() >= self.prob or len(self.alive) < 2:
            return
        me = threading.current_thread().name
        other = self.rng.choice(self.alive)
        self.trace_hash = hash((self.trace_hash, self.points, other))
        if other == me:
            return
        self.switches += 1
        self.sems[other].release()
        self.sems[me].acquire()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self.local

    def run(self, thunks, timeout=60):
        out = [None] * len(thunks)

        def body(i, fn):
            me = threading.current_thread().name
            self.sems[me].acquire()
            sys.settrace(self.tracer)
            try:
                out[i] = ("value", fn())
            except BaseException as e:      # reported by the caller
                out[i] = ("raised", e)
            finally:
                sys.settrace(None)
                self.alive.remove(me)
                if self.alive:
                    self.sems[self.rng.choice(self.alive)].release()

        ts = []
        for i, fn in enumerate(thunks):
            t = threading.Thread(target=body, args=(i, fn), daemon=True,
                                 name="w%d" % i)
            self.sems[t.name] = threading.Semaphore(0)
            self.alive.append(t.name)
            ts.append(t)
        for t in ts:
            t.start()
        self.sems[self.rng.choice(self.alive)].release()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                raise Deadlock
        return out
