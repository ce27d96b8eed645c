"""Deterministic baton scheduler for real threads: exactly one runs at a time,
and a recorded list of choices decides which one at every yield point."""
from __future__ import annotations

import sys
import threading


class Baton:
    def __init__(self, sched, rec=None, runaway=200000):
        self.sched = list(sched)
        self.pos = 0
        self.rec = rec
        self.sems = []
        self.done = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.ids = {}
        self.switches = 0
        self.trace = []
        self.runaway = runaway
        self.last = None

    def _choose(self):
        live = [i for i, d in enumerate(self.done) if not d]
        if not live:
            return None
        if self.pos < len(self.sched):
            c = self.sched[self.pos]
            self.pos += 1
            if c < 0:  # stay with the current one if it can run
                return self.last if self.last in live else live[0]
            return live[c % len(live)]
        return self.last if self.last in live else live[0]

    def run(self, funcs):
        results = [None] * len(funcs)
        threads = []
        for i, f in enumerate(funcs):
            self.sems.append(threading.Semaphore(0))
            self.done.append(False)

            def body(i=i, f=f):
                self.sems[i].acquire()
                self.ids[threading.get_ident()] = i
                try:
                    results[i] = f()
                finally:
                    sys.settrace(None)
                    self.ids.pop(threading.get_ident(), None)
                    self.done[i] = True
                    self._handover(i)

            t = threading.Thread(target=body, daemon=True)
            threads.append(t)
            t.start()
        first = self._choose()
        self.last = first
        self.trace.append(first)
        self.sems[first].release()
        self.main.acquire()
        for t in threads:
            t.join()
        return results

    def _handover(self, me):
        nxt = self._choose()
        if nxt is None:
            self.main.release()
            return
        self.last = nxt
        self.trace.append(nxt)
        self.sems[nxt].release()

    def point(self):
        """A yield point; does nothing on threads the scheduler does not own."""
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        nxt = self._choose()
        if nxt == me or nxt is None:
            self.last = me
            return
        self.switches += 1
        self.trace.append(nxt)
        self.last = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
