"""Runs two calls in two threads under a controlled scheduler.

Threads are handed over only at line (or byte code) boundaries of the code under test, where the plan says so, so a
schedule is reproducible: plan = [n0, n1, ...] means the first thread executes n0 steps, then the second n1 steps,
and so on; after the plan a thread runs until it ends.  When the thread that should run is blocked (a lock held by the
other one) for `patience` seconds, both run freely: every interleaving has to give the same results."""
import os
import sys
import threading
from . import env

PREFIX = os.path.abspath(env.REPO) + os.sep


class _Run(object):
    def __init__(self, n, plan, opcodes, patience):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.plan, self.at = list(plan), 0
        self.opcodes, self.patience = opcodes, patience
        self.free = False
        self.left = self.plan[0] if self.plan else 1 << 60
        self.steps = [0] * n
        self.switches = 0

    def other(self, tid):
        for d in range(1, len(self.done)):
            t = (tid + d) % len(self.done)
            if not self.done[t]:
                return t
        return None

    def advance(self):
        self.at += 1
        self.left = self.plan[self.at] if self.at < len(self.plan) else 1 << 60

    def step(self, tid):
        self.steps[tid] += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        t = self.other(tid)
        self.advance()
        if t is None:
            return
        self.switches += 1
        self.sem[t].release()
        if not self.sem[tid].acquire(timeout=self.patience):
            self.free = True

    def end(self, tid):
        self.done[tid] = True
        t = self.other(tid)
        if t is not None:
            self.advance()
            self.sem[t].release()


def _outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return "raised", type(e).__name__


def run(fs, plan, opcodes=False, patience=5.0, limit=300.0):
    """-> (outcomes, steps of each thread, number of hand-overs); outcomes[i] is None when thread i did not end."""
    r = _Run(len(fs), plan, opcodes, patience)
    out = [None] * len(fs)

    def worker(i):
        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                r.step(i)
            return local

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        r.sem[i].acquire()
        sys.settrace(call)
        try:
            out[i] = _outcome(fs[i])
        finally:
            sys.settrace(None)
            r.end(i)
    ts = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(len(fs))]
    for t in ts:
        t.start()
    r.sem[0].release()
    for t in ts:
        t.join(limit)
    return out, r.steps, r.switches
