"""A deterministic scheduler for library code run from several threads.

Every executed line of the library is a scheduling point; exactly one thread runs
between two points and the next one is chosen by the case's PRNG, so an interleaving
replays.  If the running thread blocks (a lock held by a paused thread), a watchdog
lets another one go: that costs determinism, never a verdict.
"""
import hashlib
import sys
import threading

from . import core


class Scheduler:
    def __init__(self, n, rng, policy):
        self.n, self.rng, self.policy = n, rng, policy
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.cur = 0
        self.tick = 0
        self.switches = 0
        self.forced = 0
        self.count = [0] * n
        self.h = hashlib.md5()
        self.stop = False

    # policy: ("walk", p) switch with probability p at each line
    #         ("once", victim, k) preempt thread `victim` at its k-th line and run the others to completion first
    def _next(self, i):
        others = [j for j in self.alive if j != i]
        if not others:
            return i
        if self.policy[0] == "walk":
            return self.rng.choice(others) if self.rng.random() < self.policy[1] else i
        _, victim, k = self.policy
        if i == victim and self.count[i] == k:
            return others[0]
        return i

    def point(self, i, where):
        self.tick += 1
        self.count[i] += 1
        if self.stop:
            return
        if self.cur != i:
            self.sem[i].acquire()
            return
        j = self._next(i)
        if j != i:
            self.switches += 1
            self.h.update(f"{i}>{j}@{where};".encode())
            self.cur = j
            self.sem[j].release()
            self.sem[i].acquire()

    def done(self, i):
        self.alive.remove(i)
        self.tick += 1
        if self.cur == i and self.alive:
            j = self.alive[0] if self.policy[0] == "once" else self.rng.choice(self.alive)
            self.cur = j
            self.sem[j].release()

    def run(self, fns):
        out = [None] * self.n

        def body(i):
            self.sem[i].acquire()

            def local(frame, event, arg):
                if event == "line":
                    self.point(i, f"{frame.f_code.co_filename[len(core.PKG):]}:{frame.f_lineno}")
                return local

            def trace(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(core.PKG) else None
            sys.settrace(trace)
            try:
                out[i] = fns[i]()
            except BaseException as e:      # reported by the caller
                out[i] = e
            finally:
                sys.settrace(None)
                self.done(i)
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.cur = self.policy[1] if self.policy[0] == "once" else self.rng.randrange(self.n)
        self.sem[self.cur].release()
        last = -1
        try:
            while any(t.is_alive() for t in ths):
                for t in ths:
                    if t.is_alive():
                        t.join(0.7)
                        break
                if self.tick == last and self.alive:
                    others = [j for j in list(self.alive) if j != self.cur] or list(self.alive)
                    self.forced += 1
                    self.cur = others[self.forced % len(others)]
                    self.sem[self.cur].release()
                last = self.tick
        finally:
            self.stop = True
            for s in self.sem:
                for _ in range(3):
                    s.release()
        return out
