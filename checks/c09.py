"""C09: AIS returns the annealed importance weight of the path it sampled."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import LibError, Violation
from sim.executor import SimSession, SimFault

L2PI = np.log(2 * np.pi)


def gen(seed, tier):
    r = random.Random("c09-%d" % seed)
    k = r.choice([1, 1, 2, 2, 3])
    names = r.sample(["z", "w", "h", "a"], k)
    lat = [{"name": n, "data": r.choice([[], [], [1], [3]]),
            "pm": r.randrange(-8, 9) / 8.0, "ps": r.choice([0.5, 1.0, 1.5]),
            "m": r.randrange(-8, 9) / 8.0, "w": r.choice([-1.0, 0.5, 1.0])}
           for n in names]
    temps = r.choice([1, 2, 2, 3, 4, 6, 9])
    if random.Random("c09-temps-%d" % seed).random() < 0.03:
        temps = 33
    wide = random.Random("c09-wide-%d" % seed)
    n_adapt = r.choice([0, 0, 1, 2, 4])
    runs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        runs.append({"x": r.randrange(-16, 17) / 8.0,
                     "fail": None if r.random() < 0.6 else
                     {"call": r.randrange(0, temps + n_adapt + 3),
                      "op": int(10 ** r.uniform(0, 2.8)),
                      "kind": r.choice(["op", "op", "op", "check"])}})
    runs.append({"x": r.randrange(-16, 17) / 8.0, "fail": None})
    adapt = r.choice(["none", "none", "true", "fed", "fed"])
    return {"seed": seed, "latents": lat,
            "chains": wider(wide, r.choice([1, 2, 3, 5])),
            "n": wider(wide, r.choice([1, 2, 3])), "hier": r.random() < 0.4,
            "form": r.choice(["bn", "bn", "func"]),
            "temps": temps,
            "n_adapt": n_adapt,
            "adapt": adapt, "mass": adapt != "none" and r.random() < 0.4,
            "step": r.choice([0.05, 0.1, 0.3, 1.0, 2.0]),
            "leap": r.choice([1, 2, 4]), "c": r.choice([0.5, 1.0, 4.0]),
            "verbose": r.random() < 0.1, "runs": runs,
            "gap": random.Random("c09-gap-%d" % seed).choice(
                [0.25, 0.25, 0.25, 6.0, 25.0]),
            "final": seed % 3 == 0,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def wider(r, n):
    return r.choice([6, 9, 13]) if r.random() < 0.05 else n


def shrink(sc):
    for i in range(len(sc["runs"])):
        if len(sc["runs"]) > 1:
            c = copy.deepcopy(sc)
            del c["runs"][i]
            yield c
    if len(sc["latents"]) > 1:
        for i in range(len(sc["latents"])):
            c = copy.deepcopy(sc)
            del c["latents"][i]
            yield c
    for k, v in (("n_adapt", 0), ("adapt", "none"), ("mass", False),
                 ("hier", False), ("verbose", False), ("chains", 1), ("n", 1)):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            if c["adapt"] == "none":
                c["mass"] = False
            yield c
    for t in (2, 1, 3):
        if t < sc["temps"]:
            c = copy.deepcopy(sc)
            c["temps"] = t
            yield c


class Spy(object):
    """The session AIS is given: passes every call to the simulator and
    records the latents before and after it."""

    def __init__(self, w, sess):
        self.w, self.s = w, sess
        self.calls = []
        self.plan = None

    def run(self, fetches, feed_dict=None, **kw):
        w = self.w
        before = w.q(self.s)
        fault = None
        if self.plan is not None and len(self.calls) == self.plan["call"]:
            fault = OneFault(self.plan, w.ctx)
        rec = {"before": before, "after": None, "temp": None, "draws": None,
               "sampled": False, "wrote": False}
        for k, v in (feed_dict or {}).items():
            if k is w.ais_temperature():
                rec["temp"] = float(np.float32(v))
        self.calls.append(rec)
        out = self.s.run(fetches, feed_dict, faults=fault)
        rec["after"] = w.q(self.s)
        rec["draws"] = list(self.s.last.draws)
        rec["sampled"] = w.hmc_ran(self.s)
        wrote = set(x[1] for x in self.s.last.writes)
        rec["wrote"] = all(v.op.name in wrote for v in w.lat.values())
        return out

    # the rest of the session interface, should AIS use it
    def __getattr__(self, k):
        return getattr(self.s, k)


class OneFault(object):
    def __init__(self, plan, ctx):
        self.at, self.ctx, self.hit = plan["op"], ctx, False

    def before_op(self, sess, node, frame, it, rec):
        if not self.hit and rec.steps >= self.at + 1 and node.op is not None:
            self.hit = True
            self.ctx.faults["op-failure"] += 1
            rec.fault_hits.append(node.name)
            return SimFault(node.name)
        return None

    def after_op(self, sess, node, frame, it, rec, outs):
        return outs


class World(object):
    def __init__(self, sc, ctx, graph=None):
        self.sc, self.ctx = sc, ctx
        self.names = [l["name"] for l in sc["latents"]]
        self.l = {l["name"]: l for l in sc["latents"]}
        self.K, self.N = sc["chains"], sc["n"]
        self.ops = []
        self.g = tf.Graph() if graph is None else graph
        w = self
        with self.g.as_default():
            self.lat = {n: tf.Variable(
                np.zeros(self.shape(n), np.float32), name="lat_" + n)
                for n in self.names}
            self.x_ph = tf.placeholder(tf.float32, [self.N], name="x")
            self.ad_ph = tf.placeholder(tf.bool, [], name="adapt")
            kw = {}
            if sc["adapt"] != "none":
                kw["adapt_step_size"] = self.ad_ph if sc["adapt"] == "fed" \
                    else True
                if sc["mass"]:
                    kw.update(adapt_mass=True, mass_collect_iters=2)

            class CapturingHMC(zs.HMC):
                def sample(self, *a, **k):
                    op, info = super(CapturingHMC, self).sample(*a, **k)
                    w.ops.append(op)
                    return op, info
            self.hmc = ctx.lib(CapturingHMC, step_size=sc["step"],
                               n_leapfrogs=sc["leap"], **kw)

            @zs.meta_bayesian_net()
            def model():
                bn = zs.BayesianNet()
                S = None
                for n in w.names:
                    z = bn.normal(n, w.base(n, "m"), std=1.,
                                  group_ndims=len(w.l[n]["data"]))
                    v = w.l[n]["w"] * tf.convert_to_tensor(z)
                    if w.l[n]["data"]:
                        v = tf.reduce_sum(v, -1)
                    S = v if S is None else S + v
                bn.normal("x", S, std=float(1 / np.sqrt(sc["c"])))
                return bn

            @zs.meta_bayesian_net()
            def proposal():
                bn = zs.BayesianNet()
                prev = None
                for n in w.names:
                    loc = w.base(n, "pm")
                    if sc["hier"] and prev is not None:
                        pv = prev
                        if w.l[n]["data"]:
                            pv = tf.expand_dims(pv, -1)
                        loc = loc + 0.5 * pv
                    z = bn.normal(n, loc, std=w.l[n]["ps"],
                                  group_ndims=len(w.l[n]["data"]))
                    prev = tf.convert_to_tensor(z)
                    if w.l[n]["data"]:
                        prev = tf.reduce_sum(prev, -1)
                return bn

            def build():
                mb, pb = model(), proposal()
                m = mb
                if sc["form"] == "func":
                    m = lambda o: mb.observe(**o).log_joint()  # noqa: E731
                return zs.evaluation.AIS(
                    m, pb, self.hmc, {"x": self.x_ph}, self.lat,
                    n_temperatures=sc["temps"], n_adapt=sc["n_adapt"],
                    verbose=sc["verbose"])
            self.ais = ctx.lib(build)
            self.init = tf.global_variables_initializer()

    def shape(self, n):
        return (self.K, self.N) + tuple(self.l[n]["data"])

    def base(self, n, k):
        return tf.constant(self.base_np(n, k).astype(np.float32))

    def base_np(self, n, k):
        size = int(np.prod(self.shape(n)))
        return np.broadcast_to(
            self.l[n][k] + 0.125 * np.arange(size // self.K).reshape(
                self.shape(n)[1:]), self.shape(n))

    def ais_temperature(self):
        return self.ais.temperature

    def hmc_ran(self, s):
        return any(o.name in s.last_plan.by_name for o in self.ops)

    def q(self, s):
        return {n: np.asarray(s.get(v), np.float64)
                for n, v in self.lat.items()}

    def x(self, v):
        return v + self.sc.get("gap", 0.25) * np.arange(self.N)

    def red(self, t, n):
        return t.sum(-1) if self.l[n]["data"] else t

    def log_prop(self, q):
        out, prev = 0.0, None
        for n in self.names:
            loc, sd = self.base_np(n, "pm"), self.l[n]["ps"]
            if self.sc["hier"] and prev is not None:
                loc = loc + 0.5 * (prev[..., None] if self.l[n]["data"]
                                   else prev)
            out = out + self.red(-0.5 * L2PI - np.log(sd) -
                                 0.5 * ((q[n] - loc) / sd) ** 2, n)
            prev = self.red(q[n], n)
        return out

    def log_joint(self, q, x):
        c = self.sc["c"]
        out, S = 0.0, 0.0
        for n in self.names:
            out = out + self.red(-0.5 * L2PI - 0.5 *
                                 (q[n] - self.base_np(n, "m")) ** 2, n)
            S = S + self.red(self.l[n]["w"] * q[n], n)
        return out - 0.5 * L2PI + 0.5 * np.log(c) - 0.5 * c * (x - S) ** 2

    def eps(self, q):
        """standardised proposal noise of a position"""
        out, prev = {}, None
        for n in self.names:
            loc, sd = self.base_np(n, "pm"), self.l[n]["ps"]
            if self.sc["hier"] and prev is not None:
                loc = loc + 0.5 * (prev[..., None] if self.l[n]["data"]
                                   else prev)
            out[n] = (q[n] - loc) / sd
            prev = self.red(q[n], n)
        return out


def lme(v):
    m = v.max(0)
    return np.log(np.mean(np.exp(v - m), 0)) + m


def run(sc, ctx):
    import contextlib
    import io
    w = World(sc, ctx)
    s = SimSession(w.g, sc["seed"], ctx.sched())
    ctx.lib(s.run, w.init)
    if sc.get("final"):
        # as a training loop does: nothing may be added to the graph from here
        w.g.finalize()
        ctx.probes["finalized"] += 1
    for i, rn in enumerate(sc["runs"]):
        spy = Spy(w, s)
        spy.plan = rn["fail"] if rn["fail"] and rn["fail"]["kind"] == "op" \
            else None
        x = w.x(rn["x"])
        fd = {w.x_ph: x}
        if rn["fail"] and rn["fail"]["kind"] == "check":
            # an unusable observation: the run must fail or not, but a later
            # run must not notice
            fd[w.x_ph] = np.full(w.N, np.nan)
            ctx.faults["nan-observation"] += 1
        if sc["adapt"] == "fed":
            fd[w.ad_ph] = True
        keep = dict(fd)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                value = ctx.lib(w.ais.run, spy, fd)
        except LibError as e:
            if isinstance(e.__cause__, SimFault) or (
                    rn["fail"] and rn["fail"]["kind"] == "check"):
                ctx.probes["run-failed"] += 1
                continue
            raise
        if fd != keep and set(map(id, fd)) != set(map(id, keep)):
            raise Violation("feed", "AIS.run changed the feed_dict it was "
                            "given")
        if rn["fail"] and rn["fail"]["kind"] == "check":
            continue
        judge(w, spy, value, x, i, ctx)


def judge(w, spy, value, x, i, ctx):
    sc = w.sc
    T = sc["temps"]
    tr = [j for j, c in enumerate(spy.calls) if c["sampled"]]
    if len(tr) < T:
        raise Violation("schedule", "run %d: %d transitions for %d "
                        "temperatures" % (i, len(tr), T))
    path = tr[-T:]
    if len(tr) - T != sc["n_adapt"]:
        raise Violation("adapt", "run %d: %d adaptation iterations, n_adapt "
                        "is %d" % (i, len(tr) - T, sc["n_adapt"]))
    temps = [spy.calls[j]["temp"] for j in path]
    if any(t is None for t in temps) or not all(
            b > a for a, b in zip([0.0] + temps, temps)):
        raise Violation("schedule", "run %d: temperatures %s are not strictly "
                        "increasing from 0" % (i, temps))
    if abs(temps[-1] - 1.0) > 1e-6:
        raise Violation("schedule", "run %d: the last temperature is %r, not 1"
                        % (i, temps[-1]))
    first = path[0]
    # ---- z_0: the latents the first transition starts from
    zs_ = [spy.calls[first]["before"]]
    for a, b in zip(path, path[1:]):
        if any(not np.array_equal(spy.calls[a]["after"][n],
                                  spy.calls[b]["before"][n])
               for n in w.names):
            raise Violation("path", "run %d: the chains were moved between two "
                            "transitions" % i)
    zs_ += [spy.calls[j]["after"] for j in path]
    lo = tr[-T - 1] + 1 if len(tr) > T else 0
    src = [j for j in range(lo, first) if spy.calls[j]["wrote"]]
    if not src:
        raise Violation("proposal", "run %d: the chains were not drawn from "
                        "the proposal after adaptation" % i)
    draws = [d.value for d in spy.calls[src[-1]]["draws"]]
    e = w.eps(zs_[0])
    for n in w.names:
        if not any(np.size(d) == e[n].size and np.allclose(
                np.reshape(d, e[n].shape), e[n], rtol=2e-3, atol=2e-3)
                for d in draws):
            raise Violation("proposal", "run %d: latent %r does not start the "
                            "path at a fresh draw from the proposal" % (i, n))
    # ---- importance weight
    def logf(t, q):
        return (1 - t) * w.log_prop(q) + t * w.log_joint(q, x)
    lw = -w.log_prop(zs_[0])
    mag = np.abs(lw)
    for k, t in enumerate(temps):
        a = logf(t, zs_[k])
        lw = lw + a
        mag = mag + np.abs(w.log_prop(zs_[k])) + np.abs(
            w.log_joint(zs_[k], x))
        if k + 1 < T:
            b = logf(t, zs_[k + 1])
            lw = lw - b
            mag = mag + np.abs(b)
    want = float(np.mean(lme(lw)))
    tol = 1e-4 + 4e-6 * float(mag.max())
    ctx.probes["runs-judged"] += 1
    ctx.probes["transitions"] += T
    acc = sum(int(not np.array_equal(spy.calls[j]["before"][n],
                                     spy.calls[j]["after"][n]))
              for j in path for n in w.names[:1])
    ctx.probes["moved-transitions"] += acc
    ctx.note("ais", i, round(want, 3))
    if np.shape(value) != () or not abs(float(value) - want) <= tol:
        raise Violation("estimate", "run %d: AIS returned %s, the weights of "
                        "the path it sampled give %r" % (i, value, want))
