"""Baton with a sparse schedule: [[gap, thread], ...] switches to `thread` after `gap` yield points.

With `hot=n` the n threads first run up to the point where they call `arrive`, one after the other; the
schedule starts there."""
from __future__ import annotations

import threading

from baton import Baton


class SparseBaton(Baton):
    def __init__(self, first, switches, hot=0):
        super().__init__([])
        self.cold = set(range(hot))
        self.first = first
        self.plan = [list(s) for s in switches]
        self.left = self.plan[0][0] if self.plan else None
        self.started = False
        self.points = 0

    def _choose(self):
        live = [i for i, d in enumerate(self.done) if not d]
        if not live:
            return None
        if not self.started:
            self.started = True
            return live[self.first % len(live)]
        if self.cold:
            self.cold -= {i for i, d in enumerate(self.done) if d}
        if self.cold:
            return self.last if self.last in self.cold else min(self.cold)
        self.points += 1
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                _, c = self.plan.pop(0)
                self.left = self.plan[0][0] if self.plan else None
                return live[c % len(live)]
        return self.last if self.last in live else live[0]

    def arrive(self):
        """This thread has reached the part of its work that is to be interleaved."""
        me = self.ids.get(threading.get_ident())
        if me in self.cold:
            self.cold.discard(me)
            self.point()
