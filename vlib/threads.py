"""Cooperative scheduling of real threads: every traced line (or opcode) of the library is a scheduling point."""

from __future__ import annotations

import os
import sys
import threading

from .core import REPO

ROOT = os.path.realpath(os.path.join(REPO, "jsonpath")) + os.sep


class Run:
    """Run bodies in threads, one at a time; `plan` lists how many points to run before each switch.

    plan [i, j, ...]: the first thread runs i points, then the other one j points, and so on; when the plan is
    used up, or a thread ends, the running thread continues to its end and then the next one does.
    """

    def __init__(self, bodies, plan, unit="line", only=None):
        self.bodies, self.unit, self.only = bodies, unit, only
        self.plan = list(plan)
        self.left = self.plan.pop(0) if self.plan else -1
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.results = [None] * len(bodies)
        self.points = [0] * len(bodies)
        self.live = list(range(len(bodies)))
        self.current = 0
        self.switches = 0
        self.done = threading.Semaphore(0)
        self.names = {}

    def wanted(self, code):
        f = code.co_filename
        w = self.names.get(f)
        if w is None:
            w = self.names[f] = os.path.realpath(f).startswith(ROOT) and (
                self.only is None or os.path.basename(f) in self.only
            )
        return w

    def point(self, me):
        self.points[me] += 1
        if self.left > 0 and me == self.current:
            self.left -= 1
            if self.left == 0 and len(self.live) > 1:
                self.left = self.plan.pop(0) if self.plan else -1
                other = self.live[(self.live.index(me) + 1) % len(self.live)]
                self.current = other
                self.switches += 1
                self.sems[other].release()
                seen = -1
                while not self.sems[me].acquire(timeout=0.25):
                    # The other thread waits for something this one holds: it is not enabled.
                    if sum(self.points) == seen:
                        self.current, self.left = me, -1
                        break
                    seen = sum(self.points)

    def tracer(self, me):
        unit = self.unit

        def local(frame, event, arg):  # noqa: ARG001
            if event == unit:
                self.point(me)
            return local

        def top(frame, event, arg):  # noqa: ARG001
            if not self.wanted(frame.f_code):
                return None
            if unit == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if unit == "call":
                self.point(me)
                return None
            return local

        return top

    def thread(self, me):
        self.sems[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            self.results[me] = (self.bodies[me](), None)
        except BaseException as e:  # noqa: BLE001
            self.results[me] = (None, f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.live.remove(me)
            if self.live and self.current != me:
                pass
            elif self.live:
                nxt = self.live[0]
                self.current = nxt
                self.left = -1
                self.sems[nxt].release()
            if not self.live:
                self.done.release()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sems[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        return self.results


def explore(make, unit, bound, only=None, stride=1):
    """Every schedule of two bodies with at most `bound` preemptions; yields (plan, results, switches)."""
    n = []
    for first in range(2):
        bodies = make()
        r = Run(bodies[first:] + bodies[:first], [], unit, only)
        res = r.go()
        n.append(r.points[0])
        yield (first, ()), rot(res, first), 0
    if bound >= 1:
        for first in range(2):
            for i in range(1, n[first] + 1, stride):
                bodies = make()
                r = Run(bodies[first:] + bodies[:first], [i], unit, only)
                res = r.go()
                yield (first, (i,)), rot(res, first), r.switches
    if bound >= 2:
        for first in range(2):
            for i in range(1, n[first] + 1, stride):
                for j in range(1, n[1 - first] + 1, stride):
                    bodies = make()
                    r = Run(bodies[first:] + bodies[:first], [i, j], unit, only)
                    res = r.go()
                    yield (first, (i, j)), rot(res, first), r.switches


def rot(res, first):
    return res if first == 0 else [res[1], res[0]]
