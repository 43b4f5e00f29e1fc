"""Controlled interleaving of real threads.

Threads run the code under test one at a time; at every line (or byte code instruction) of it a seeded
scheduler may hand over to another thread, so that a schedule is reproducible and preemptions happen
inside the code under test rather than wherever the interpreter would put them.  A thread that blocks in
a real lock or system call does not stall the others: a watchdog lets another one run meanwhile.
"""
import os
import sys
import threading
import time

from lib.core import REPO

_mono = time.monotonic
ROOT = os.path.realpath(REPO) + os.sep + 'openid' + os.sep


QUANTA = [1, 2, 3, 5, 8, 13, 20, 30, 50, 80, 120, 200, 500, 500]


class Scheduler(object):
    def __init__(self, rng, prob=0.3, opcodes=False, stall=0.02, limit=60):
        self.rng = rng
        self.prob = prob
        self.opcodes = opcodes
        self.stall = stall
        self.limit = limit
        self.cond = threading.Condition()
        self.current = None
        self.alive = []
        self.ticks = 0
        self.switches = 0
        self.stalls = 0
        self.left = rng.choice(QUANTA)
        self.trace = []           # order of hand-overs, for telling schedules apart

    # -- called in the threads

    def _point(self, me):
        self.ticks += 1
        if self.current == me:
            if self.prob == 'quanta':
                # long and short turns mixed: one thread stays between two steps while another gets a lot done
                self.left -= 1
                if self.left > 0:
                    return
                self.left = self.rng.choice(QUANTA)
            elif self.rng.random() >= self.prob:
                return
        with self.cond:
            if self.current == me:
                others = self.alive
                if self.prob == 'quanta':
                    others = [i for i in self.alive if i != me] or self.alive
                self.current = self.rng.choice(others)
                if self.current != me:
                    self.switches += 1
                    self.trace.append(self.current)
                self.cond.notify_all()
            while self.current != me:
                self.cond.wait()

    def _tracer(self, me):
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self._point(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if opcodes:
                    frame.f_trace_opcodes = True
                self._point(me)
                return local
            return None
        return glob

    def _body(self, me, func, results):
        with self.cond:
            while self.current != me:
                self.cond.wait()
        sys.settrace(self._tracer(me))
        try:
            results[me] = ('ok', func())
        except BaseException as e:   # noqa: B902
            sys.settrace(None)
            results[me] = ('raised', e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.remove(me)
                self.ticks += 1
                if self.alive and self.current == me:
                    self.current = self.rng.choice(self.alive)
                    self.trace.append(self.current)
                self.cond.notify_all()

    # -- called by the case

    def run(self, funcs):
        """Run the functions; returns [('ok', value) or ('raised', exception)]."""
        results = [None] * len(funcs)
        self.alive = list(range(len(funcs)))
        threads = [threading.Thread(target=self._body, args=(i, f, results), daemon=True) for i, f in enumerate(funcs)]
        for t in threads:
            t.start()
        end = _mono() + self.limit
        with self.cond:
            self.current = self.rng.choice(self.alive)
            self.trace.append(self.current)
            self.cond.notify_all()
        last, since = -1, _mono()
        while any(t.is_alive() for t in threads):
            for t in threads:
                if t.is_alive():
                    t.join(0.002)
                    break
            now = _mono()
            if self.ticks != last:
                last, since = self.ticks, now
            elif now - since > self.stall:
                with self.cond:
                    others = [i for i in self.alive if i != self.current]
                    if others and self.ticks == last:
                        self.current = self.rng.choice(others)
                        self.stalls += 1
                        self.cond.notify_all()
                since = now
            if now > end:
                raise RuntimeError('threads did not finish')
        return results
