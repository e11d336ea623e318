"""C22: a program with a fixed graph seed is reproducible.

The same program is built and run in two environments: this process, and
another one with other hash seeds, other Python/NumPy generator states, a
history of other programs, another thread, another execution order.  Every
value of every run has to be the same."""
from sim import tfenv  # noqa: F401
import copy
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np
import tensorflow as tf

from checks import c17, c20
from checks.c08 import flat
from sim.core import Ctx, LibError, Violation
from sim.executor import HarnessError, SimSession
from sim.rng import RngSeam, stream

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _program(r, seed):
    kind = r.choice(["net", "net", "net", "hmc", "sg", "vi", "vi", "ais"])
    if kind == "net":
        while True:
            sc = c17.gen(seed, "quick")
            if sc["kind"] == "net":
                break
            seed += 1000003
        sc["gseed"] = None
        return {"kind": "net", "sc": sc, "n": 2}
    return c20._comp(r, seed, kind)


def gen(seed, tier):
    r = random.Random("c22-%d" % seed)
    p = _program(r, seed)
    p["n"] = min(p["n"], 5)
    return {"seed": seed, "program": p, "gseed": r.randrange(1, 99999),
            # a separate process keeps one hash seed for all its scenarios
            "hash": 101 + seed % 8 * 17,
            "prelude": [_program(r, seed + 17 * (k + 1)) for k in range(
                r.choice([0, 1, 1, 2]))],
            "thread": r.random() < 0.3, "np": r.getrandbits(30),
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    if sc["prelude"]:
        for i in range(len(sc["prelude"])):
            c = copy.deepcopy(sc)
            del c["prelude"][i]
            yield c
    if sc["thread"]:
        c = copy.deepcopy(sc)
        c["thread"] = False
        yield c
    if sc["program"]["n"] > 1:
        c = copy.deepcopy(sc)
        c["program"]["n"] -= 1
        yield c
    nodes = sc["program"]["sc"].get("nodes", [])
    if len(nodes) > 1:
        for i in range(len(nodes)):
            c = copy.deepcopy(sc)
            del c["program"]["sc"]["nodes"][i]
            yield c


class SeedRng(RngSeam):
    """As TensorFlow: an operation with a seed draws the stream of that seed
    (every execution takes the next draw), one without any seed draws from the
    environment's entropy."""

    def __init__(self, entropy):
        super(SeedRng, self).__init__(entropy)
        self.unseeded = 0

    def draw(self, sess, node, ins):
        if not (node.attrs["seed"] or node.attrs["seed2"]):
            self.unseeded += 1
        return super(SeedRng, self).draw(sess, node, ins)


def history(spec, gseed, ctx, entropy, label):
    """-> list of {name: array}, one per run"""
    g = tf.Graph()
    hist = []
    if spec["kind"] == "net":
        p = c17.Program(spec["sc"], ctx, gseed)
        s = SimSession(p.g, 0, ctx.sched(label), rng=SeedRng(entropy))
        ctx.lib(s.run, p.init)
        for _ in range(spec["n"]):
            out = ctx.lib(s.run, {"u": [u.t for u in p.units], "x": p.extra},
                          p.feeds)
            o = {"%d %s" % (i, u.name): v for i, (u, v) in
                 enumerate(zip(p.units, out["u"]))}
            o.update({"log_prob %d" % i: v for i, v in enumerate(out["x"])})
            hist.append(o)
        return hist, s
    with g.as_default():
        tf.set_random_seed(gseed)
    c = c20.Comp(0, spec, ctx, g, {})
    s = SimSession(g, 0, ctx.sched(label), rng=SeedRng(entropy))
    s.rng.it, s.rng.owner = {}, {}
    if c.refused:
        return hist, s
    ctx.lib(s.run, c.init, c.init_feed())
    for k in range(spec["n"]):
        if c.kind == "ais":
            out = c.ais_run(c20.Spy(c, s, k), k)
        else:
            f, fd = c.fetch(k)
            out = flat(ctx.lib(s.run, f, fd))
        out.update(c.state(s))
        hist.append(out)
    return hist, s


def plain(hist):
    return [{k: np.asarray(v, np.float64).tolist() for k, v in o.items()}
            for o in hist]


def environment(job):
    """The other environment's side of a scenario."""
    sc = job["sc"]
    ctx = Ctx(sc)
    random.seed(sc["np"] + job["b"])
    np.random.seed((sc["np"] + job["b"]) % 2 ** 32)
    res = {}

    def work():
        try:
            for i, p in enumerate(sc["prelude"] if job["b"] else []):
                try:
                    history(p, sc["gseed"] + i + 1, ctx, ("prelude", i),
                            "p%d" % i)
                except (LibError, Violation):
                    pass
            h, s = history(sc["program"], sc["gseed"], ctx,
                           ("env", job["b"], sc["np"]),
                           "b" if job["b"] else "a")
            res["hist"] = plain(h)
        except LibError as e:
            res["error"] = str(e)
        except Violation as e:
            res["error"] = str(e)
        except Exception as e:  # noqa: BLE001
            import traceback
            res["harness"] = traceback.format_exc()[-2000:]
    if sc["thread"] and job["b"]:
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    return res


class Helper(object):
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.err = open(os.devnull, "wb")
        self.p = subprocess.Popen(
            [sys.executable, "-m", "checks.c22"], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)

    def ask(self, job):
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise HarnessError("the other process ended")
            if line.startswith(b"RESULT "):
                res = json.loads(line[7:].decode())
                if "harness" in res:
                    raise HarnessError("other process: " + res["harness"])
                return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            self.p.kill()
        self.err.close()


_HELPERS = {}


def helper(h):
    if h not in _HELPERS:
        while len(_HELPERS) >= 2:
            _HELPERS.pop(sorted(_HELPERS)[0]).close()
        _HELPERS[h] = Helper(h)
    return _HELPERS[h]


def differ(a, b):
    """-> description of the first difference | None"""
    if ("error" in a) != ("error" in b):
        return "one environment raises: %s" % (a.get("error") or b["error"])
    if "error" in a:
        return None
    for i, (x, y) in enumerate(zip(a["hist"], b["hist"])):
        if sorted(x) != sorted(y):
            return "run %d: values %s and %s" % (i, sorted(x), sorted(y))
        for k in sorted(x):
            u, v = np.asarray(x[k]), np.asarray(y[k])
            if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
                return "run %d: %s is %s in one, %s in the other" % (
                    i, k, show(u), show(v))
    return None


def show(v):
    return np.ravel(v)[:4].tolist()


def run(sc, ctx):
    st, ns = random.getstate(), np.random.get_state()
    try:
        h, s = history(sc["program"], sc["gseed"], ctx, ("env", "main"), "a")
    finally:
        random.setstate(st)
        np.random.set_state(ns)
    a = {"hist": json.loads(json.dumps(plain(h)))}
    if s.rng.unseeded:
        ctx.probes["unseeded-draws"] += s.rng.unseeded
    b = helper(sc["hash"]).ask({"sc": sc, "b": True})
    ctx.faults["other-hash-seed"] += 1
    ctx.faults["other-programs-before"] += len(sc["prelude"])
    ctx.faults["other-thread"] += sc["thread"]
    ctx.probes["runs-compared"] += len(h)
    ctx.note(b.get("error"), [[(k, o[k]) for k in sorted(o)]
                              for o in a["hist"]])
    d = differ(a, b)
    if d is None:
        return
    # what these processes did earlier must not enter the verdict
    one, two = Helper(0), Helper(sc["hash"])
    try:
        a = one.ask({"sc": sc, "b": False})
        b = two.ask({"sc": sc, "b": True})
    finally:
        one.close()
        two.close()
    d = differ(a, b)
    if d is None:
        ctx.probes["differs-by-earlier-history"] += 1
        return
    raise Violation("not-reproducible", "%s program with graph seed %d: %s"
                    % (describe(sc["program"]), sc["gseed"], d))


def describe(p):
    return "net" if p["kind"] == "net" else c20.describe(p)


def _child():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        out.write("RESULT " + json.dumps(environment(json.loads(line))) + "\n")
        out.flush()


if __name__ == "__main__":
    _child()
