"""Cooperative scheduler for real threads: exactly one runs, the plan says which.

Threads stop at points (lines of melodist code, file-system events). At each
point the running thread may hand over to another one; the decisions come from
a seeded PRNG or, on replay, from an explicit list of [task, points] segments.
"""
import random
import sys
import threading


class Scheduler:
    def __init__(self, seed=0, p=0.05, segments=None):
        self.r = random.Random(seed)
        self.p = p
        self.replay = [list(s) for s in segments] if segments is not None else None
        self.local = threading.local()
        self.trace = []  # [task, points] segments as executed
        self.points = 0
        self.switches = 0
        self.left = None
        self.budget = int(2 ** self.r.uniform(0, 9)) if p == 'burst' else 0

    # -- called by the simulated threads
    def point(self, *_):
        me = getattr(self.local, 'task', None)
        if me is None:
            return
        self.points += 1
        self.trace[-1][1] += 1
        if len(self.alive) < 2:
            return
        if self.replay is not None:
            if self.left is not None:
                self.left -= 1
                if self.left > 0:
                    return
                nxt = self._next_segment(me)
                if nxt is None or nxt == me:
                    return
            else:
                return
        else:
            if self.p == 'burst':  # run lengths spread evenly over the orders of magnitude
                self.budget -= 1
                if self.budget > 0:
                    return
                self.budget = int(2 ** self.r.uniform(0, 9))
            elif self.r.random() >= self.p:
                return
            nxt = self.r.choice([t for t in self.alive if t != me])
        if _in_scipy():
            return
        self.switches += 1
        self._hand_over(me, nxt)

    def _next_segment(self, me):
        while self.replay:
            t, n = self.replay.pop(0)
            if t in self.alive:
                self.left = n
                return t
        self.left = None
        return None

    def _hand_over(self, me, nxt):
        self.trace.append([nxt, 0])
        self.sem[nxt].release()
        self.sem[me].acquire()

    def _finish(self, me):
        self.alive.remove(me)
        if not self.alive:
            self.done.release()
            return
        nxt = None
        if self.replay is not None:
            nxt = self._next_segment(me)
        if nxt is None:
            nxt = self.alive[0] if self.replay is not None else self.r.choice(self.alive)
        self.trace.append([nxt, 0])
        self.sem[nxt].release()

    def run(self, fns):
        """Run all functions to completion; returns their results."""
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.alive = list(range(n))
        results = [None] * n

        def body(i):
            self.sem[i].acquire()
            self.local.task = i
            try:
                results[i] = fns[i]()
            except BaseException as e:
                results[i] = ('died', repr(e))
            finally:
                self.local.task = None
                self._finish(i)

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        if self.replay is not None:
            first = self._next_segment(None)
            first = self.alive[0] if first is None else first
        else:
            first = self.r.choice(self.alive)
        self.trace.append([first, 0])
        self.sem[first].release()
        self.done.acquire()
        for t in threads:
            t.join()
        return results


def _in_scipy():
    """Inside a solver callback: scipy's C code may hold a lock, do not switch."""
    f = sys._getframe(2)
    while f is not None:
        if '/scipy/' in f.f_code.co_filename:
            return True
        f = f.f_back
    return False
