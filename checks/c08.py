"""C08: inference state survives a checkpoint, crash and restart."""
from sim import tfenv  # noqa: F401
import copy
import json
import os
import random
import subprocess
import sys

import numpy as np
import tensorflow as tf

from sim import hmcscn, sgscn
from sim.core import LibError, Violation
from sim.executor import SimFault
from sim.rng import stream, RngSeam
from sim.viscn import VIWorld, gen_vi

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen(seed, tier):
    r = random.Random("c08-%d" % seed)
    kind = r.choice(["sg", "sg", "hmc", "hmc", "hmc", "reinforce"])
    if kind == "sg":
        sc = sgscn.gen(seed, tier, iters=(5, 10),
                       n_choices=(None, 0, 1, 2, 3, 3, 4))
    elif kind == "hmc":
        sc = hmcscn.gen(seed, tier, r.choice(["C01", "C04", "C04"]))
        while len(sc["iters"]) < 5:
            sc["iters"].append(copy.deepcopy(sc["iters"][-1]))
    else:
        sc = {"seed": seed, "vi": gen_vi(r, reparam=False),
              "decay": r.choice([0.5, 0.8, 0.9]),
              "iters": [{"x": r.randrange(-16, 17) / 8.0}
                        for _ in range(r.randrange(4, 9))],
              "sched": {"kind": "seed", "seed": r.getrandbits(40)}}
    sc["kind"] = kind
    n = len(sc["iters"])
    # incarnations: start where the last durable checkpoint was taken
    inc, at = [], 0
    while at < n and len(inc) < 3:
        at = r.randrange(at, n) if not inc else r.randrange(at + 1, n + 1)
        if at >= n:
            break
        inc.append({"at": at, "init": r.random() < 0.5,
                    "lost": r.choice([0, 0, 1, 2]),
                    "torn": r.random() < 0.4})
    sc["inc"] = inc or [{"at": 1, "init": True, "lost": 0, "torn": False}]
    sc["process"] = r.random() < (0.02 if tier == "quick" else 0.01)
    return sc


def shrink(sc):
    for i in range(len(sc["inc"])):
        if len(sc["inc"]) > 1:
            c = copy.deepcopy(sc)
            del c["inc"][i]
            yield c
        for k, v in (("lost", 0), ("torn", False), ("init", True)):
            if sc["inc"][i][k] != v:
                c = copy.deepcopy(sc)
                c["inc"][i][k] = v
                yield c
    last = sc["inc"][-1]["at"]
    if len(sc["iters"]) > last + 1:
        c = copy.deepcopy(sc)
        c["iters"] = c["iters"][:-1]
        yield c
    for ch in (hmcscn.shrink(sc) if sc["kind"] == "hmc" else
               sgscn.shrink(sc) if sc["kind"] == "sg" else []):
        if len(ch["iters"]) == len(sc["iters"]):
            yield ch


class ShapeRng(RngSeam):
    """Draws that depend on the run and the shape only, so that a rebuilt
    graph sees the same draws whatever its operations are called."""

    def draw(self, sess, node, ins):
        frame, it = sess._cur
        shape = [np.asarray(x).tolist() for x in ins]
        g = stream(self.seed, self.rec.index, node.type, shape,
                   str(node.attrs["dtype"]), it)
        v = self.kernel(node.type, ins, node.attrs["dtype"], g)
        self.n_draws += 1
        return v


class Inst(object):
    """One incarnation of the process: its own graph and session."""

    def __init__(self, sc, ctx, label):
        self.sc, self.ctx = sc, ctx
        k = sc["kind"]
        if k == "sg":
            self.w = sgscn.World(sc, ctx)
            self.init = self.w.init
        elif k == "hmc":
            self.w = hmcscn.World(sc, ctx)
            self.init = self.w.init
        else:
            self.w = w = VIWorld(sc["vi"], ctx, sc["seed"])
            with w.g.as_default():
                def build():
                    o = w.objective("elbo")
                    return o.reinforce(decay=sc["decay"])
                self.cost = ctx.lib(build)
                gr = tf.gradients(self.cost, [w.var(p) for p in w.vparams])
                with tf.control_dependencies([self.cost] + gr):
                    self.train = tf.group(*[
                        w.var(p).assign_sub(0.02 * tf.clip_by_value(g, -2., 2.))
                        for p, g in zip(w.vparams, gr)])
                self.grads = gr
                self.init = tf.global_variables_initializer()
        with self.w.g.as_default():
            self.gvars = tf.global_variables()
        self.names = {}
        for v in self.gvars:
            if v.op.name in self.names:
                raise Violation("duplicate-name", "two variables are called "
                                "%r" % v.op.name)
            self.names[v.op.name] = list(v.shape.as_list())
        self.s = self.w.session(label)
        self.s.rng = ShapeRng(sc["seed"])

    def start(self):
        fd = {self.w.lr_ph: self.w.cfg["lr"]} if self.sc["kind"] == "sg" \
            else None
        self.ctx.lib(self.s.run, self.init, fd)

    def checkpoint(self):
        return {v.op.name: self.s.get(v) for v in self.gvars}

    def restore(self, ck):
        for v in self.gvars:
            self.s.set(v, ck[v.op.name])

    def iteration(self, i, faults=None):
        it = self.sc["iters"][i]
        self.s.run_index = 1 + i      # the draws of iteration i
        k = self.sc["kind"]
        w = self.w
        if k == "sg":
            f, fd = {"op": w.op, "q": w.info.q}, w.feed(it)
            if w.cfg["alg"] in ("SGHMC", "SGNHT"):
                f["mean_k"] = w.info.mean_k
            if w.cfg["alg"] == "SGNHT":
                f["alpha"] = w.info.alpha
        elif k == "hmc":
            f = {"op": w.op}
            for n in hmcscn.FIELDS:
                f[n] = getattr(w.info, n)
            fd = w.feed(it, w.q(self.s))
        else:
            f = {"cost": self.cost, "grads": self.grads, "train": self.train}
            fd = {w.x_ph: w.x(it["x"])}
        out = self.ctx.lib(self.s.run, f, fd, faults=faults)
        res = flat(out)
        if k in ("sg", "hmc"):
            for n in w.m.names:
                res["latent:" + n] = np.asarray(w.q(self.s)[n], np.float64)
        else:
            for p, v in w.params(self.s).items():
                res["param:%s:%s" % p] = v
        return res


def flat(o, pre=""):
    if o is None:
        return {}
    if isinstance(o, dict):
        r = {}
        for k, v in o.items():
            r.update(flat(v, "%s/%s" % (pre, k)))
        return r
    if isinstance(o, (list, tuple)):
        r = {}
        for k, v in enumerate(o):
            r.update(flat(v, "%s/%d" % (pre, k)))
        return r
    return {pre: np.asarray(o, np.float64)}


class Torn(object):
    """Crash inside an iteration: a random operation never completes."""

    def __init__(self, k):
        self.k, self.n = k, 0

    def before_op(self, sess, node, frame, it, rec):
        self.n += 1
        if self.n == self.k:
            return SimFault(node.name)
        return None

    def after_op(self, sess, node, frame, it, rec, outs):
        return outs


def compare(ctx, want, got, i, where):
    for k in sorted(want):
        a, b = want[k], got.get(k)
        with np.errstate(all="ignore"):
            if b is None or a.shape != b.shape or not np.allclose(
                    a, b, rtol=1e-4, atol=1e-5, equal_nan=True):
                raise Violation(
                    "diverged", "after a restart from the checkpoint taken "
                    "before iteration %s, %s of iteration %d is %s; the "
                    "uninterrupted run has %s" % (where, k, i, b, a),
                    iteration=i, what=k)


def names_differ(a, b):
    raise Violation(
        "names", "rebuilding the same program gives other variables: only in "
        "the first build %s, only in the second %s, shapes differ for %s" % (
            sorted(set(a) - set(b)), sorted(set(b) - set(a)),
            sorted(n for n in a if n in b and a[n] != b[n])))


def run(sc, ctx):
    n = len(sc["iters"])
    a = Inst(sc, ctx, "a")
    a.start()
    cks, hist = [], []
    for i in range(n):
        cks.append(a.checkpoint())
        hist.append(a.iteration(i))
        ctx.note("h", i, digest_of(hist[-1]))
        mx = max(float(np.max(np.abs(v))) if v.size else 0.0
                 for k, v in hist[-1].items() if ":" in k)
        if not np.isfinite(mx) or mx > 30:
            ctx.probes["blown-up"] += 1
            n = i
            break
    prev = None
    for j, inc in enumerate(sc["inc"]):
        at = inc["at"]
        if at >= n:
            break
        b = Inst(sc, ctx, "b%d" % j)
        if b.names != a.names:
            names_differ(a.names, b.names)
        # the checkpoint comes from the previous incarnation
        ck = cks[at] if prev is None or prev[0] > at else prev[1].get(
            at, cks[at])
        if inc["init"]:
            b.start()
        b.restore(ck)
        ctx.faults["crash-restart"] += 1
        end = n
        if j + 1 < len(sc["inc"]):
            end = max(at, min(n, sc["inc"][j + 1]["at"]))
        made = {}
        for i in range(at, n):
            made[i] = b.checkpoint()
            if i >= end:
                break
            compare(ctx, hist[i], b.iteration(i), i, at)
            ctx.probes["iterations-compared"] += 1
        # work done after the last checkpoint, lost with the process
        for k in range(min(inc["lost"], n - end)):
            b.iteration(end + k)
            ctx.faults["lost-iteration"] += 1
        if inc["torn"] and end < n:
            r = ctx.rng("torn", j)
            try:
                b.iteration(end, Torn(r.randrange(1, 200)))
            except LibError:
                ctx.faults["crash-inside-iteration"] += 1
        prev = (at, made)
    if sc["process"] and n and sc["inc"][0]["at"] < n:
        _other_process(sc, ctx, a, cks, hist, sc["inc"][0]["at"], n)


def digest_of(h):
    return [(k, h[k].tolist()) for k in sorted(h)]


def _other_process(sc, ctx, a, cks, hist, at, n):
    """The restart happens in a really new process, with other hash seeds."""
    env = dict(os.environ, PYTHONHASHSEED=str(
        ctx.rng("hash").randrange(1, 4000000)))
    job = {"sc": sc, "at": at, "n": n,
           "ck": {k: v.tolist() for k, v in cks[at].items()}}
    p = subprocess.run([sys.executable, "-m", "checks.c08"], cwd=HERE,
                       env=env, input=json.dumps(job).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=240)
    line = [l for l in p.stdout.decode().splitlines()
            if l.startswith("RESULT ")]
    if not line:
        raise RuntimeError("restarted process gave no result: %s"
                           % p.stderr.decode()[-1500:])
    out = json.loads(line[0][7:])
    ctx.faults["process-restart"] += 1
    if out["names"] != a.names:
        names_differ(a.names, out["names"])
    if out.get("error"):
        raise LibError(out["error"])
    for i, h in enumerate(out["hist"]):
        compare(ctx, hist[at + i], {k: np.asarray(v, np.float64)
                                    for k, v in h.items()}, at + i, at)
        ctx.probes["iterations-compared-other-process"] += 1


def _child():
    from sim.core import Ctx
    job = json.loads(sys.stdin.read())
    sc = job["sc"]
    ctx = Ctx(sc)
    b = Inst(sc, ctx, "p")
    res = {"names": b.names, "hist": []}
    try:
        if sc["inc"][0]["init"]:
            b.start()
        b.restore({k: job["ck"][k] for k in b.names})
        for i in range(job["at"], job["n"]):
            res["hist"].append({k: v.tolist() for k, v in
                                b.iteration(i).items()})
    except LibError as e:
        res["error"] = str(e)
    except KeyError as e:
        res["error"] = "variable %s is not in the checkpoint" % e
    print("RESULT " + json.dumps(res))


if __name__ == "__main__":
    _child()
