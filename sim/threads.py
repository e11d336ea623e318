"""Deterministic simulation of Python threads: real threads, of which exactly
one runs at any time.  Control may pass at every traced line (and, in the files
that manage shared state, at every byte code) of the library; a seeded
scheduler, or the explicit choices of a replay file, decide when and to whom."""
from . import tfenv
import os
import random
import sys
import threading

from .executor import HarnessError

LIB = os.path.join(os.path.realpath(tfenv.REPO), "zhusuan") + os.sep
FINE = (os.path.join(LIB, "framework", "utils.py"),
        os.path.join(LIB, "framework", "meta_bn.py"))


class ThreadSched(object):
    """choice 0: keep running; k > 0: the k-th other live thread."""

    def __init__(self, ctx, label="threads"):
        self.ctx = ctx
        self.key = label + ":0"
        spec = ctx.sched_spec
        self.kind = spec["kind"]
        self.taken = {}
        self.k = -1
        self.h = 14695981039346656037
        if self.kind == "explicit":
            e = spec["runs"].get(self.key, {})
            self.choices = {int(a): int(b) for a, b in
                            e.get("choices", {}).items()}
            self.name = "replay"
        elif self.kind == "seed":
            self.r = random.Random("thr-%s-%s" % (spec["seed"], self.key))
            m = self.r.random()
            if m < 0.35:
                self.name, self.p, self.pf = "random", 0.02, 0.02
            elif m < 0.5:
                self.name, self.p, self.pf = "random-dense", 0.3, 0.3
            elif m < 0.85:
                self.name = "directed"        # switch inside the shared code
                self.p = 0.0
                self.pf = self.r.choice([0.02, 0.1, 0.4])
            else:
                self.name, self.p, self.pf = "sparse", 0.003, 0.01
        else:
            self.name = "fifo"

    def choose(self, others, fine):
        self.k += 1
        if not others:
            return 0
        if self.kind == "explicit":
            c = self.choices.get(self.k, 0)
            c = min(c, others)
        elif self.kind == "fifo":
            c = 0
        elif self.r.random() < (self.pf if fine else self.p):
            c = self.r.randrange(1, others + 1)
        else:
            c = 0
        if c:
            self.taken[self.k] = c
        return c

    def next_after_end(self, n):
        """A thread ended: which of the n live ones goes on."""
        self.k += 1
        if self.kind == "seed":
            c = self.r.randrange(n)
        elif self.kind == "explicit":
            c = min(self.choices.get(self.k, 0), n - 1)
        else:
            c = 0
        if c:
            self.taken[self.k] = c
        return c


class ThreadSim(object):
    def __init__(self, ctx, label="threads", timeout=60):
        self.ctx = ctx
        self.sched = ThreadSched(ctx, label)
        self.timeout = timeout
        self.live = []
        self.order = []
        self.points = 0

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.done = threading.Semaphore(0)
        self.errors = [None] * n
        self.dead = False
        ts = []
        for i, f in enumerate(fns):
            t = threading.Thread(target=self._body, args=(i, f), daemon=True)
            t.start()
            ts.append(t)
        self.cur = self.live[self.sched.next_after_end(n)]
        self.order.append((0, self.cur))
        self.sem[self.cur].release()
        if not self.done.acquire(timeout=self.timeout):
            self.dead = True
            raise HarnessError("simulated threads did not finish in %ss"
                               % self.timeout)
        for t in ts:
            t.join(5)
        st = self.ctx.stats
        st["runs"] += 1
        st["steps"] += self.points
        st["sched_points"] += self.points
        st["sched:threads-" + self.sched.name] += 1
        h = 14695981039346656037
        for p, c in self.order:
            h = ((h ^ (p * 8 + c)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        self.ctx.hashes.add(h)
        self.ctx.log.append(("threads", self.points, h))
        self.ctx.probes["thread-switches"] += len(self.order) - 1
        if self.ctx.keep_choices:
            self.ctx.choices[self.sched.key] = {
                "choices": {str(k): v for k, v in self.sched.taken.items()},
                "after": 0}
        for e in self.errors:
            if e is not None:
                raise e

    def _body(self, i, f):
        self.sem[i].acquire()
        try:
            sys.settrace(lambda fr, ev, arg: self._trace(i, fr, ev))
            try:
                f()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        self.live.remove(i)
        if not self.live or self.dead:
            self.done.release()
            return
        self.cur = self.live[self.sched.next_after_end(len(self.live))]
        self.order.append((self.points, self.cur))
        self.sem[self.cur].release()

    def _trace(self, i, frame, event):
        fn = frame.f_code.co_filename
        if not fn.startswith(LIB):
            return None
        fine = fn in FINE
        if fine:
            frame.f_trace_opcodes = True

        def local(fr, ev, arg):
            if ev == "line" or ev == "opcode":
                self._point(i, fine)
            return local
        self._point(i, fine)
        return local

    def _point(self, i, fine):
        if self.dead:
            raise HarnessError("abandoned")
        self.points += 1
        others = [t for t in self.live if t != i]
        c = self.sched.choose(len(others), fine)
        if c:
            t = others[c - 1]
            self.cur = t
            self.order.append((self.points, t))
            self.sem[t].release()
            self.sem[i].acquire()
