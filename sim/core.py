"""Scenario context: schedules, recording, violations, statistics."""
import collections
import random

from . import sched as S


class Violation(Exception):
    def __init__(self, kind, msg, **data):
        super(Violation, self).__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.data = data


class LibError(Exception):
    """The library raised where the scenario gives it no reason to."""


class ScenarioSched(S.Sched):
    """One fresh seeded scheduler per run of one session (label), or the
    explicit choices of a replay file."""

    def __init__(self, ctx, label):
        self.ctx = ctx
        self.label = label
        self.n = 0

    def begin_run(self, plan, rec):
        key = "%s:%d" % (self.label, self.n)
        self.n += 1
        self.key = key
        spec = self.ctx.sched_spec
        if spec["kind"] == "explicit":
            e = spec["runs"].get(key, {})
            self.cur = S.Replay(e.get("choices", {}), e.get("after", 0))
        elif spec["kind"] == "fifo":
            self.cur = S.Sched(0)
        else:
            self.cur = S.make("%s|%s" % (spec["seed"], key))
        self.after = 0
        self.cur.begin_run(plan, rec)

    def pick(self, ready):
        return self.cur.pick(ready)

    def after_fault(self, rec):
        self.after = self.cur.after_fault(rec)
        return self.after

    def end_run(self, rec):
        st = self.ctx.stats
        st["runs"] += 1
        st["steps"] += rec.steps
        st["sched_points"] += rec.branching
        st["sched:" + self.cur.name] += 1
        self.ctx.hashes.add(rec.order_hash)
        if self.ctx.keep_choices:
            self.ctx.choices[self.key] = {
                "choices": {str(k): v for k, v in rec.choices.items()},
                "after": self.after}
        self.ctx.log.append((self.key, rec.steps, rec.order_hash))


class Ctx(object):
    def __init__(self, scenario, keep_choices=False):
        self.scenario = scenario
        self.sched_spec = scenario.get("sched", {"kind": "fifo"})
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.hashes = set()
        self.choices = {}
        self.keep_choices = keep_choices
        self.log = []            # event log for determinism diffs

    def rng(self, *key):
        return random.Random("%r|%r" % (self.scenario["seed"], key))

    def sched(self, label="main"):
        return ScenarioSched(self, label)

    def note(self, *what):
        self.log.append(what)

    def lib(self, f, *a, **k):
        """Call into the library; anything it raises is its own doing."""
        from .executor import HarnessError
        try:
            return f(*a, **k)
        except (HarnessError, Violation, LibError):
            raise
        except Exception as e:  # noqa: BLE001
            raise LibError("%s: %s" % (type(e).__name__, e)) from e
