"""C14: the REINFORCE moving baseline only uses earlier evaluations and takes
in each evaluation exactly once."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf

from sim.core import Violation
from sim.viscn import VIWorld, gen_vi

FETCH = ["cost", "vgrads", "train", "both", "both", "all", "obj",
         "theta", "bcost", "z"]


def gen(seed, tier):
    r = random.Random("c14-%d" % seed)
    spec = gen_vi(r, ("normal", "bernoulli"), reparam=False)
    if r.random() < 0.5 and len(spec["latents"]) > 1:
        spec["latents"] = spec["latents"][:1]
    # how many estimators live in the graph, each in its own variable scope
    n = r.choice([1, 1, 1, 2])
    ests = [{"decay": r.choice([None, 0.8, 0.5, 0.9, 0.25]),
             "baseline": r.choice([None, None, "const", "var", "batch"])}
            for _ in range(n)]
    its = [{"x": r.randrange(-16, 17) / 8.0, "fetch": r.choice(FETCH),
            "est": r.randrange(n), "twice": n == 2 and r.random() < 0.2}
           for _ in range(r.randrange(3, 9 if tier == "quick" else 16))]
    r2 = random.Random("c14-long-%d" % seed)
    if r2.random() < 0.04:
        # a long history
        while len(its) < r2.choice([20, 30, 45]):
            its.append(dict(r2.choice(its), x=r2.randrange(-16, 17) / 8.0))
    return {"seed": seed, "vi": spec, "ests": ests, "iters": its,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    if len(sc["iters"]) > 1:
        for i in range(len(sc["iters"])):
            c = copy.deepcopy(sc)
            del c["iters"][i]
            yield c
    if len(sc["ests"]) > 1:
        for i in range(2):
            c = copy.deepcopy(sc)
            del c["ests"][i]
            c["iters"] = [dict(t, est=0, twice=False) for t in c["iters"]
                          if t["est"] != i]
            if c["iters"]:
                yield c
    if len(sc["vi"]["latents"]) > 1:
        for i in range(len(sc["vi"]["latents"])):
            c = copy.deepcopy(sc)
            del c["vi"]["latents"][i]
            yield c
    for k in ("batch", "data"):
        if sc["vi"][k]:
            c = copy.deepcopy(sc)
            c["vi"][k] = []
            yield c


class Mean(object):
    """Zero-debiased exponential moving mean."""

    def __init__(self, decay, biased=0.0, n=0):
        self.decay, self.biased, self.n = decay, biased, n

    @property
    def value(self):
        return self.biased / (1 - self.decay ** self.n) if self.n else 0.0

    def fold(self, v):
        return Mean(self.decay, self.decay * self.biased +
                    (1 - self.decay) * v, self.n + 1)


class Est(object):
    def __init__(self, w, i, spec):
        self.spec = spec
        self.decay = 0.8 if spec["decay"] is None else spec["decay"]
        kw = {}
        if spec["decay"] is not None:
            kw["decay"] = spec["decay"]
        with tf.variable_scope("est%d" % i):
            self.b = None
            if spec["baseline"] == "const":
                self.b = tf.constant(0.75, tf.float32)
            elif spec["baseline"]:
                shape = w.batch if spec["baseline"] == "batch" else ()
                self.b = tf.get_variable(
                    "baseline", initializer=np.full(shape, -1.25, np.float32))
            if self.b is not None:
                kw["baseline"] = self.b
            self.obj = w.objective("elbo")
            c = self.obj.reinforce(**kw)
        if self.b is not None:
            if not isinstance(c, tuple) or len(c) != 2:
                raise Violation("shape", "reinforce(baseline=...) returned %r "
                                "instead of (cost, baseline_cost)" % (c,))
            self.cost, self.bcost = c
        else:
            self.cost, self.bcost = c, None
        self.grads = tf.gradients(self.cost, [w.var(p) for p in w.vparams])
        self.theta = tf.gradients(self.cost, [w.theta])
        for p, g in zip(list(w.vparams) + [("theta", None)],
                        self.grads + self.theta):
            if g is None:
                raise Violation("no-gradient", "parameter %s receives no "
                                "gradient from the REINFORCE cost" % (p,))
        # the baseline cost moves the baseline, the cost everything else
        self.bgrad = None
        if isinstance(self.b, tf.Variable):
            self.bgrad = tf.gradients(self.bcost, self.b)[0]
            if self.bgrad is None:
                raise Violation("no-gradient", "the baseline receives no "
                                "gradient from the baseline cost")
        none = [(self.cost, self.b, "the cost", "the baseline")] \
            if self.b is not None else []
        if self.b is not None:
            none += [(self.bcost, w.var(p), "the baseline cost", p)
                     for p in list(w.vparams) + [("theta", None)]]
        self.none = [(g, c, v) for t, x, c, v in none
                     for g in tf.gradients(t, x) if g is not None]
        with tf.control_dependencies([self.cost] + self.grads + self.theta):
            upd = [w.var(p).assign_sub(0.05 * tf.clip_by_value(g, -2., 2.))
                   for p, g in zip(w.vparams, self.grads)]
            if self.b is not None and spec["baseline"] != "const":
                upd.append(self.b.assign_add(tf.fill(tf.shape(self.b), .25)))
        self.train = tf.group(*upd)
        self.cands = [Mean(self.decay)]      # possible histories

    def bval(self, s):
        if self.b is None:
            return 0.0
        if self.spec["baseline"] == "const":
            return 0.75
        return np.asarray(s.get(self.b), np.float64)


def close(got, want, scale):
    return np.allclose(got, want, rtol=1e-3, atol=1e-4 * (1 + scale))


def run(sc, ctx):
    w = VIWorld(sc["vi"], ctx, sc["seed"])
    with w.g.as_default():
        ests = [ctx.lib(Est, w, i, e) for i, e in enumerate(sc["ests"])]
        init = tf.global_variables_initializer()
    s = w.session()
    ctx.lib(s.run, init)
    for i, it in enumerate(sc["iters"]):
        P = w.params(s)
        use = ests if it["twice"] else [ests[it["est"]]]
        F = it["fetch"]
        f = {"z": w.zt}
        for k, e in enumerate(use):
            d = {}
            if F in ("cost", "both", "all", "train"):
                d["cost"] = e.cost
            if F in ("vgrads", "both", "all"):
                d["grads"] = e.grads
            if F in ("theta", "all"):
                d["theta"] = e.theta
            if F in ("obj", "all"):
                d["obj"] = e.obj
            if F in ("bcost", "all") and e.bcost is not None:
                d["bcost"] = e.bcost
                if e.bgrad is not None:
                    d["bgrad"] = e.bgrad
                d["none"] = [g for g, c, v in e.none]
            if F == "train" and k == 0:
                d["train"] = e.train
            f[k] = d
        bv = [e.bval(s) for e in use]
        if F == "train" and len(use) > 1:
            use, bv = use[:1], bv[:1]
            del f[1]
        xv = w.x(it["x"])
        out = ctx.lib(s.run, f, w.feed(xv))
        z = {n: np.asarray(v, np.float64) for n, v in out["z"].items()}
        lw = w.logp(z, P, xv) - w.logq(z, P)
        scale = float(np.max(np.abs(w.logp(z, P, xv)) +
                             np.abs(w.logq(z, P)))) + 1.0
        ctx.note("z", i, [z[n].tolist() for n in w.names])
        ctx.probes["fetch-" + F] += 1
        for k, (e, b) in enumerate(zip(use, bv)):
            o = out[k]
            signal = float(np.mean(lw - b))
            if "obj" in o:
                want = w.surrogate("elbo", z, P, xv)(P)
                if not close(o["obj"], want, scale):
                    raise Violation("objective", "iteration %d: the ELBO is "
                                    "%s, should be %s" % (i, o["obj"], want))
            if "bcost" in o:
                want = w.mean(0.5 * (lw - b) ** 2)
                if np.shape(o["bcost"]) != np.shape(want) or \
                        not close(o["bcost"], want, scale ** 2):
                    raise Violation(
                        "baseline-cost", "iteration %d: baseline cost is %s, "
                        "should be %s" % (i, o["bcost"], want))
            if "bgrad" in o:
                want = np.zeros(np.shape(b))
                for j in np.ndindex(*np.shape(b)):
                    d = np.zeros(np.shape(b))
                    d[j] = 0.5
                    want[j] = np.sum(w.mean(0.5 * (lw - b - d) ** 2)) - \
                        np.sum(w.mean(0.5 * (lw - b + d) ** 2))
                ctx.probes["baseline-gradient"] += 1
                if np.shape(o["bgrad"]) != np.shape(want) or \
                        not close(o["bgrad"], want, scale * lw.size):
                    raise Violation(
                        "baseline-gradient", "iteration %d: the gradient of "
                        "the baseline cost for the baseline is %s, should be "
                        "%s" % (i, o["bgrad"], want))
            for g, (_, c, v) in zip(o.get("none", []), e.none):
                if np.any(np.asarray(g) != 0):
                    raise Violation(
                        "stray-gradient", "iteration %d: %s has gradient %s "
                        "for %s" % (i, c, np.asarray(g).tolist(), v))
            ok = []
            tell = []
            for m in e.cands:
                sur = w.surrogate("reinforce", z, P, xv, sub=b + m.value)
                good = True
                if "cost" in o:
                    want = sur(P)
                    good &= np.shape(o["cost"]) == np.shape(want) and \
                        close(o["cost"], want, scale ** 2)
                    tell.append(want)
                for p, g in zip(w.vparams, o.get("grads", [])):
                    want = w.grad(sur, P, p)
                    good &= close(g, want, np.max(np.abs(want)) + scale)
                    tell.append(want)
                if "theta" in o:
                    want = w.grad(sur, P, ("theta", None))
                    good &= close(o["theta"][0], want,
                                  np.max(np.abs(want)) + scale)
                    tell.append(want)
                if good:
                    ok.append(m)
            if not ok:
                raise Violation(
                    "baseline", "iteration %d (fetch %s, estimator %d): no "
                    "history of earlier evaluations explains cost %s, "
                    "gradients %s %s; past moving mean(s) %s after %s "
                    "evaluations predict %s" % (
                        i, F, it["est"], o.get("cost"), o.get("grads"),
                        o.get("theta"), [m.value for m in e.cands],
                        [m.n for m in e.cands],
                        [np.asarray(t).tolist() for t in tell]), iteration=i)
            if len(ok) < len(e.cands):
                ctx.probes["history-resolved"] += 1
            if "cost" in o or "grads" in o:
                e.cands = [m.fold(signal) for m in ok]
                ctx.probes["folded"] += 1
            elif F in ("obj", "z"):
                e.cands = ok
            else:          # the model gradient or baseline cost alone
                e.cands = ok + [m.fold(signal) for m in ok]
            uniq = {}
            for m in e.cands:
                uniq.setdefault((m.n, round(m.biased, 9)), m)
            e.cands = list(uniq.values())[:16]
        big = max(float(np.max(np.abs(v))) for v in w.params(s).values())
        if big > 30 or scale > 300:
            ctx.probes["blown-up"] += 1
            return
