"""Seeded schedulers: decide which ready operation of the graph runs next."""
import random


class Sched(object):
    """FIFO; base class.  `spec` is what a replay file stores."""
    name = "fifo"

    def __init__(self, after_fault="none"):
        self._af = after_fault

    def begin_run(self, plan, rec):
        self.plan = plan
        self.rec = rec

    def end_run(self, rec):
        pass

    def pick(self, ready):
        return 0

    def after_fault(self, rec):
        """How many ready operations still complete after the first failure."""
        return {"none": 0, "all": 10 ** 9}.get(self._af, self._af)


class Lifo(Sched):
    name = "lifo"

    def pick(self, ready):
        return len(ready) - 1


class RandomSched(Sched):
    name = "random"

    def __init__(self, seed, after_fault="none"):
        super(RandomSched, self).__init__(after_fault)
        self.r = random.Random(seed)

    def pick(self, ready):
        return int(self.r.random() * len(ready))


class PriSched(Sched):
    """Random fixed priority per (run, op), as in probabilistic concurrency
    testing, with a few priority change points."""
    name = "pct"

    def __init__(self, seed, changes=3, after_fault="none"):
        super(PriSched, self).__init__(after_fault)
        self.r = random.Random(seed)
        self.changes = changes

    def begin_run(self, plan, rec):
        Sched.begin_run(self, plan, rec)
        n = len(plan.nodes)
        self.pri = [self.r.random() for _ in range(n)]
        self.points = {self.r.randrange(max(1, 2 * n))
                       for _ in range(self.changes)}
        self.k = 0

    def pick(self, ready):
        pri = self.pri
        best, bi = -1.0, 0
        for i, e in enumerate(ready):
            p = pri[e[0].id]
            if p > best:
                best, bi = p, i
        self.k += 1
        if self.k in self.points:
            pri[ready[bi][0].id] = -self.r.random()
            return self.pick(ready)
        return bi


class HoldSched(Sched):
    """Writers as early as possible; a random subset of the readers of
    variables (or any ops) as late as possible; FIFO or random otherwise."""
    name = "hold"

    def __init__(self, seed, p_hold=0.3, rush_writers=True, after_fault="none",
                 base="random"):
        super(HoldSched, self).__init__(after_fault)
        self.r = random.Random(seed)
        self.p_hold = p_hold
        self.rush = rush_writers
        self.base = base

    def begin_run(self, plan, rec):
        Sched.begin_run(self, plan, rec)
        r = self.r
        mode = r.random()
        rank = []
        for n in plan.nodes:
            k = 1
            if n.writes_var and self.rush and r.random() < 0.85:
                k = 0
            elif mode < 0.5:
                if n.reads_var and r.random() < self.p_hold:
                    k = 2
            elif r.random() < self.p_hold:
                k = 2
            rank.append(k)
        self.rank = rank

    def pick(self, ready):
        rank = self.rank
        best = 3
        idx = []
        for i, e in enumerate(ready):
            k = rank[e[0].id]
            if k < best:
                best = k
                idx = [i]
            elif k == best:
                idx.append(i)
        if len(idx) == 1 or self.base == "fifo":
            return idx[0]
        return idx[int(self.r.random() * len(idx))]


class DirectedSched(HoldSched):
    """Race-directed: runs one random variable write as early as its own
    dependencies allow (everything it does not depend on is held back), or as
    late as possible."""
    name = "directed"

    def __init__(self, seed, late=False, after_fault="none", base="random"):
        Sched.__init__(self, after_fault)
        self.r = random.Random(seed)
        self.late = late
        self.base = base

    def begin_run(self, plan, rec):
        Sched.begin_run(self, plan, rec)
        w = plan.writers()
        n = len(plan.nodes)
        if not w:
            self.rank = [1] * n
            return
        k = 1 if self.r.random() < 0.7 else min(2, len(w))
        rank = [1] * n
        for t in self.r.sample(w, k):
            if self.late:
                rank[t.id] = 2
            else:
                for i in plan.ancestors(t):
                    rank[i] = 0
                rank[t.id] = 0
        self.rank = rank


class Replay(Sched):
    """Explicit choices: {scheduling point: index}, FIFO elsewhere."""
    name = "replay"

    def __init__(self, choices, after_fault="none"):
        super(Replay, self).__init__(after_fault)
        self.choices = {int(k): int(v) for k, v in choices.items()}

    def begin_run(self, plan, rec):
        Sched.begin_run(self, plan, rec)
        self.k = -1

    def pick(self, ready):
        self.k += 1
        i = self.choices.get(self.k, 0)
        return i if i < len(ready) else len(ready) - 1


def make(seed, after_fault=None):
    """A scheduler drawn from the family by one integer."""
    r = random.Random("sched-%s" % (seed,))
    af = after_fault if after_fault is not None else \
        r.choice(["none", "all", r.randrange(1, 40)])
    k = r.random()
    if k < 0.06:
        return Sched(af)
    if k < 0.10:
        return Lifo(af)
    if k < 0.22:
        return RandomSched(r.getrandbits(48), af)
    if k < 0.36:
        return PriSched(r.getrandbits(48), r.randrange(0, 5), af)
    if k < 0.56:
        return HoldSched(r.getrandbits(48), r.choice([0.05, 0.15, 0.4, 0.8]),
                         r.random() < 0.85, af, r.choice(["random", "fifo"]))
    if k < 0.88:
        return DirectedSched(r.getrandbits(48), False, af,
                             r.choice(["random", "fifo"]))
    return DirectedSched(r.getrandbits(48), True, af,
                         r.choice(["random", "fifo"]))
