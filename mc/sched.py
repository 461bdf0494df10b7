"""Controlled scheduler: real threads, one runs at a time, a preemption is possible before every line (or instruction) of the code under test."""
import sys
import threading

STUCK = 0.25


class Run:
    """plan: step numbers (of the whole execution) at which the running thread is preempted"""

    def __init__(self, bodies, plan, files, opcodes=False, first=0):
        self.bodies, self.plan, self.files, self.opcodes = bodies, set(plan), files, opcodes
        self.cond = threading.Condition()
        self.owner = first
        self.steps = 0
        self.done = [False] * len(bodies)
        self.out = [None] * len(bodies)
        self.switched = 0
        self.ended = [0] * len(bodies)

    def _next(self, me):
        for k in range(1, len(self.bodies) + 1):
            t = (me + k) % len(self.bodies)
            if not self.done[t] and t != me:
                return t
        return me

    def _wait(self, me):
        """with cond held: until it is this thread's turn; a thread that is stuck on a lock of the code loses its turn"""
        while self.owner != me:
            seen = self.steps
            if not self.cond.wait(STUCK) and self.owner != me and self.steps == seen:
                self.owner = me
                self.cond.notify_all()

    def _step(self, me):
        if self.owner == me and self.steps + 1 not in self.plan:
            self.steps += 1
            return
        with self.cond:
            self._wait(me)
            self.steps += 1
            if self.steps in self.plan:
                nxt = self._next(me)
                if nxt != me:
                    self.switched += 1
                    self.owner = nxt
                    self.cond.notify_all()
                    self._wait(me)

    def _body(self, me):
        files, opcodes = self.files, self.opcodes

        def local(frame, ev, arg):
            if ev == ('opcode' if opcodes else 'line'):
                self._step(me)
            return local

        def glob(frame, ev, arg):
            if frame.f_code.co_filename.startswith(files):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        with self.cond:
            self._wait(me)
        sys.settrace(glob)
        try:
            self.out[me] = ('ok', self.bodies[me]())
        except BaseException as e:
            self.out[me] = ('err', e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[me] = True
                self.ended[me] = self.steps
                if self.owner == me:
                    self.owner = self._next(me)
                self.cond.notify_all()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.out


def length(bodies, files, opcodes=False):
    """(steps of the first body, steps of all)"""
    r = Run(bodies, (), files, opcodes)
    r.run()
    return r.ended[0], r.steps


def plans(n, bound, stride=1):
    """all sets of at most `bound` preemption points: the first within the first body, the second anywhere after it"""
    yield ()
    for a in range(1, n[0] + 1, stride):
        yield (a,)
        if bound >= 2:
            for b in range(a + 1, n[1] + 1, stride):
                yield (a, b)
