"""C20: inference components that live in one program do not disturb each
other.

Every component (sampler, estimator with training step, AIS) is first run
alone, in a graph of its own; then all of them in one graph and session, their
steps interleaved and combined by the seed, with failing neighbours.  The
draws are keyed to the component and its own iteration, so each component must
repeat its solo history."""
from sim import tfenv  # noqa: F401
import contextlib
import copy
import io
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from checks import c09
from checks.c08 import Torn, flat
from sim import hmcscn, sgscn
from sim.core import LibError, Violation
from sim.executor import SimFault, SimSession
from sim.rng import RngSeam, stream
from sim.viscn import VIWorld, gen_vi


class Boom(Exception):
    """Raised by a model function while a component is being built."""


def gen(seed, tier):
    r = random.Random("c20-%d" % seed)
    comps = []
    for i in range(r.choice([2, 2, 2, 3])):
        if comps and r.random() < 0.45:
            # the same kind of component once more, often the same settings
            c = copy.deepcopy(r.choice(comps))
            if r.random() < 0.5:
                c = _comp(r, seed * 7 + i, c["kind"])
            elif c["kind"] in ("hmc", "sg"):
                c["share"] = r.random() < 0.6
        else:
            c = _comp(r, seed * 7 + i, r.choice(
                ["hmc", "hmc", "sg", "sg", "vi", "vi", "ais"]))
        comps.append(c)
    # the interleaving: which components take a step in the same run call
    steps = []
    left = {i: c["n"] for i, c in enumerate(comps)}
    while left:
        one = [i for i in left if comps[i]["kind"] == "ais"]
        both = [i for i in left if comps[i]["kind"] != "ais"]
        if one and (not both or r.random() < 0.3):
            s = [r.choice(one)]
        else:
            s = sorted(r.sample(both, r.choice([1, 1, len(both)])))
        for i in s:
            left[i] -= 1
            if not left[i]:
                del left[i]
        steps.append(s)
    late = {str(i): r.randrange(1, max(2, len(steps) // 2))
            for i in range(1, len(comps)) if r.random() < 0.3}
    faults = []
    if r.random() < 0.4:
        faults.append({"at": r.randrange(len(steps)),
                       "comp": r.randrange(len(comps)),
                       "op": int(10 ** r.uniform(0, 2.6))})
    return {"seed": seed, "comps": comps, "steps": steps, "late": late,
            "faults": faults,
            "boom": [r.randrange(len(comps)) for _ in range(
                r.choice([0, 0, 1, 2]))],
            "mix": r.random() < 0.6,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def _comp(r, seed, kind):
    seed = seed % 1000003
    if kind == "hmc":
        sc = hmcscn.gen(seed, "quick", r.choice(["C01", "C04"]))
    elif kind == "sg":
        sc = sgscn.gen(seed, "quick", iters=(3, 7),
                       n_choices=(None, 0, 1, 2, 3))
    elif kind == "vi":
        est = r.choice(["reinforce", "reinforce", "reinforce", "vimco",
                        "sgvb"])
        vi = gen_vi(r, reparam=est == "sgvb",
                    families=("normal",) if est == "sgvb" else
                    ("normal", "bernoulli"))
        if est == "vimco":
            vi["K"], vi["axis"] = r.choice([2, 3]), 0
        sc = {"vi": vi, "est": est, "seed": seed,
              "decay": r.choice([0.5, 0.8, 0.9]),
              "scope": r.choice(["inf%d", "inf%d", "inf"]),
              "iters": [{"x": r.randrange(-16, 17) / 8.0}
                        for _ in range(r.randrange(3, 6))]}
    else:
        sc = c09.gen(seed, "quick")
        sc["temps"], sc["n_adapt"] = min(3, sc["temps"]), min(2, sc["n_adapt"])
        sc["iters"] = [{"x": rn["x"]} for rn in sc["runs"][:2]]
    n = len(sc["iters"])
    return {"kind": kind, "sc": sc, "n": n, "share": False}


def shrink(sc):
    if sc["faults"]:
        c = copy.deepcopy(sc)
        c["faults"] = []
        yield c
    if sc["boom"]:
        c = copy.deepcopy(sc)
        c["boom"] = []
        yield c
    if sc["late"]:
        c = copy.deepcopy(sc)
        c["late"] = {}
        yield c
    if len(sc["comps"]) > 2:
        for i in range(len(sc["comps"])):
            if any(c["share"] for c in sc["comps"]):
                break
            c = copy.deepcopy(sc)
            del c["comps"][i]
            c["steps"] = [[j - (j > i) for j in s if j != i]
                          for s in sc["steps"]]
            c["steps"] = [s for s in c["steps"] if s]
            c["late"] = {}
            c["faults"] = [dict(f, comp=f["comp"] - (f["comp"] > i),
                                at=min(f["at"], len(c["steps"]) - 1))
                           for f in sc["faults"] if f["comp"] != i]
            c["boom"] = []
            yield c
    for i in range(len(sc["steps"]) - 1, -1, -1):
        if len(sc["steps"]) > 1:
            c = copy.deepcopy(sc)
            del c["steps"][i]
            for f in c["faults"]:
                f["at"] = min(f["at"], len(c["steps"]) - 1)
            yield c


class CompRng(RngSeam):
    """Draws keyed to the component that made the operation, that component's
    own iteration, and the shape: the same alone and in company."""

    def __init__(self, seed):
        super(CompRng, self).__init__(seed)
        self.owner = {}
        self.it = {}

    def draw(self, sess, node, ins):
        frame, loop = sess._cur
        who = self.owner.get(node.name)
        shape = [np.asarray(x).tolist() for x in ins]
        g = stream(self.seed, who, self.it.get(who), node.type, shape,
                   str(node.attrs["dtype"]), loop)
        self.n_draws += 1
        return self.kernel(node.type, ins, node.attrs["dtype"], g)


class Comp(object):
    def __init__(self, i, spec, ctx, graph, cache):
        self.i, self.spec, self.ctx = i, spec, ctx
        self.kind = k = spec["kind"]
        sc = spec["sc"]
        self.sc = sc
        self.refused = False
        with graph.as_default():
            before = set(v.op.name for v in tf.global_variables())
            n0 = len(graph.get_operations())
            lj = None
            if k in ("hmc", "sg"):
                def lj(m):
                    # one model object may serve several components
                    if not spec["share"]:
                        return m.tf_logjoint()
                    key = repr(sc["model"])
                    if key not in cache:
                        cache[key] = m.tf_logjoint()
                    return cache[key]
                mod = hmcscn if k == "hmc" else sgscn
                self.w = mod.World(sc, ctx, logjoint=lj, graph=graph)
            elif k == "vi":
                self.w = w = VIWorld(sc["vi"], ctx, sc["seed"], graph=graph,
                                     scope="user%d" % i)
                sco = sc["scope"]
                with tf.variable_scope(sco % i if "%" in sco else sco):
                    try:
                        self.cost = ctx.lib(self._estimator, w)
                    except LibError as e:
                        # two in one variable scope: may be refused
                        if "%" in sco or not isinstance(
                                e.__cause__, ValueError):
                            raise
                        self.refused = True
                        return
                gr = tf.gradients(self.cost, [w.var(p) for p in w.vparams])
                with tf.control_dependencies([self.cost] + gr):
                    self.train = tf.group(*[
                        w.var(p).assign_sub(0.02 * tf.clip_by_value(
                            g, -2., 2.)) for p, g in zip(w.vparams, gr)])
                self.grads = gr
            else:
                self.w = c09.World(sc, ctx, graph=graph)
            self.vars = [v for v in tf.global_variables()
                         if v.op.name not in before]
            self.init = tf.variables_initializer(self.vars)
            self.ops = [o.name for o in graph.get_operations()[n0:]]

    def _estimator(self, w):
        e = self.sc["est"]
        if e == "vimco":
            return w.objective("iw").vimco()
        o = w.objective("elbo")
        if e == "sgvb":
            return o.sgvb()
        return o.reinforce(decay=self.sc["decay"])

    def own(self, rng):
        for n in self.ops:
            rng.owner[n] = self.i

    def init_feed(self):
        return {self.w.lr_ph: self.w.cfg["lr"]} if self.kind == "sg" else {}

    def fetch(self, i):
        w, it = self.w, self.sc["iters"][i]
        if self.kind == "sg":
            f = {"op": w.op, "q": w.info.q}
            if w.cfg["alg"] in ("SGHMC", "SGNHT"):
                f["mean_k"] = w.info.mean_k
            if w.cfg["alg"] == "SGNHT":
                f["alpha"] = w.info.alpha
            return f, w.feed(it)
        if self.kind == "hmc":
            f = {"op": w.op}
            for n in hmcscn.FIELDS:
                f[n] = getattr(w.info, n)
            return f, w.feed(it, None)
        return {"cost": self.cost, "grads": self.grads, "train": self.train}, \
            {w.x_ph: w.x(it["x"])}

    def state(self, s):
        w = self.w
        if self.kind == "vi":
            return {"param:%s:%s" % p: v for p, v in w.params(s).items()}
        return {"latent:" + n: np.asarray(s.get(v), np.float64)
                for n, v in w.lat.items()}

    def ais_run(self, s, i):
        w = self.w
        fd = {w.x_ph: w.x(self.sc["iters"][i]["x"])}
        if self.sc["adapt"] == "fed":
            fd[w.ad_ph] = True
        with contextlib.redirect_stdout(io.StringIO()):
            return {"/value": np.asarray(self.ctx.lib(
                w.ais.run, s, fd), np.float64)}


class Spy(object):
    """The session given to AIS: other components' steps may come between
    any two of its calls."""

    def __init__(self, comp, s, i, between=None):
        self.c, self.s, self.i = comp, s, i
        self.k = 0
        self.between = between

    def run(self, fetches, feed_dict=None, **kw):
        if self.between is not None:
            self.between()
        self.s.rng.it[self.c.i] = (self.i, self.k)
        self.k += 1
        return self.s.run(fetches, feed_dict, **kw)

    def __getattr__(self, k):
        return getattr(self.s, k)


def session(g, sc, ctx, label):
    return SimSession(g, sc["seed"], ctx.sched(label), rng=CompRng(sc["seed"]))


def start(c, s, ctx):
    c.own(s.rng)
    s.rng.it[c.i] = "init"
    ctx.lib(s.run, c.init, c.init_feed())


def solo(sc, ctx, i):
    spec = sc["comps"][i]
    g = tf.Graph()
    c = Comp(i, spec, ctx, g, {})
    s = session(g, sc, ctx, "solo%d" % i)
    start(c, s, ctx)
    hist = []
    for k in range(spec["n"]):
        if c.kind == "ais":
            out = c.ais_run(Spy(c, s, k), k)
        else:
            s.rng.it[i] = k
            f, fd = c.fetch(k)
            out = flat(ctx.lib(s.run, f, fd))
        out.update(c.state(s))
        mx = max(float(np.max(np.abs(v))) if v.size else 0.0
                 for n, v in out.items() if ":" in n)
        if not np.isfinite(mx) or mx > 30:
            ctx.probes["blown-up"] += 1
            break
        hist.append(out)
    return hist


def failing_build(sc, ctx, g, i):
    """A neighbour whose construction fails half-way."""
    spec = sc["comps"][i]
    with g.as_default():
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            bn.normal("z", tf.zeros([2]), std=1.)
            raise Boom()
        z = tf.Variable(tf.zeros([2]))
        try:
            if spec["kind"] == "sg":
                sgscn.build_sampler(spec["sc"]["cfg"], 0.1, None).sample(
                    model(), {}, {"z": z})
            elif spec["kind"] == "vi":
                with zs.BayesianNet() as q:
                    zs.Normal("z", tf.zeros([2]), std=1.)
                _ = zs.variational.elbo(model(), {}, variational=q).tensor
            else:
                zs.HMC(step_size=0.1, adapt_step_size=True).sample(
                    model(), {}, {"z": z})
        except Boom:
            ctx.faults["failed-construction"] += 1


def run(sc, ctx):
    hists = [solo(sc, ctx, i) for i in range(len(sc["comps"]))]
    for i, h in enumerate(hists):
        ctx.note("solo", i, [[(k, o[k].tolist()) for k in sorted(o)]
                             for o in h])
    g = tf.Graph()
    cache = {}
    s = session(g, sc, ctx, "all")
    comps = {}
    at = {}
    dead, gone = set(), set()
    r = ctx.rng("between")

    def add(i):
        c = Comp(i, sc["comps"][i], ctx, g, cache)
        if c.refused:
            gone.add(i)
            ctx.faults["refused-construction"] += 1
            return
        comps[i] = c
        at[i] = 0

    def ready(i):
        return i in comps and i not in dead and at[i] < len(hists[i])

    def check(i, out):
        c = comps[i]
        want = hists[i][at[i]]
        out.update(c.state(s))
        for k in sorted(want):
            a, b = want[k], out.get(k)
            with np.errstate(all="ignore"):
                if b is None or a.shape != b.shape or not np.allclose(
                        a, b, rtol=1e-4, atol=1e-5, equal_nan=True):
                    raise Violation(
                        "disturbed", "component %d (%s): %s of its iteration "
                        "%d is %s in this program, alone it is %s" % (
                            i, describe(sc["comps"][i]), k, at[i], b, a),
                        comp=i, iteration=at[i])
        at[i] += 1
        ctx.probes["iterations-compared"] += 1

    def together(who):
        who = [i for i in who if ready(i)]
        if not who:
            return
        f, fd = {}, {}
        for i in who:
            s.rng.it[i] = at[i]
            a, b = comps[i].fetch(at[i])
            f["c%d" % i] = a
            fd.update(b)
        out = ctx.lib(s.run, f, fd)
        if len(who) > 1:
            ctx.probes["combined-runs"] += 1
        for i in who:
            check(i, flat(out["c%d" % i]))

    def fail(f):
        i = f["comp"]
        if not ready(i) or comps[i].kind == "ais":
            return
        s.rng.it[i] = at[i]
        a, b = comps[i].fetch(at[i])
        try:
            ctx.lib(s.run, a, b, faults=Torn(f["op"]))
        except LibError as e:
            if not isinstance(e.__cause__, SimFault):
                raise
            ctx.faults["failed-iteration"] += 1
        # its own further history is the subject of C07, not of this check
        dead.add(i)

    for i in sc["boom"]:
        failing_build(sc, ctx, g, i)
    for i in range(len(sc["comps"])):
        if str(i) not in sc["late"]:
            add(i)
    for i in sorted(comps):
        comps[i].own(s.rng)
        s.rng.it[i] = "init"
    with g.as_default():
        init = tf.global_variables_initializer() \
            if not sc["boom"] and not gone else \
            tf.group(*[c.init for c in comps.values()])
    fd = {}
    for c in comps.values():
        fd.update(c.init_feed())
    ctx.lib(s.run, init, fd)
    for n, who in enumerate(sc["steps"]):
        for i, k in sorted(sc["late"].items()):
            if k <= n and int(i) not in comps and int(i) not in gone:
                add(int(i))
                if int(i) in comps:
                    start(comps[int(i)], s, ctx)
                    ctx.probes["late-component"] += 1
        for f in sc["faults"]:
            if f["at"] == n:
                fail(f)
        for i in who:
            if ready(i) and comps[i].kind == "ais":
                def between():
                    if sc["mix"] and r.random() < 0.4:
                        o = [j for j in comps if ready(j) and
                             comps[j].kind != "ais"]
                        if o:
                            ctx.probes["steps-inside-ais"] += 1
                            together([r.choice(o)])
                check(i, comps[i].ais_run(Spy(comps[i], s, at[i], between),
                                          at[i]))
        together([i for i in who if sc["comps"][i]["kind"] != "ais"])


def describe(c):
    return {"sg": lambda: c["sc"]["cfg"]["alg"], "hmc": lambda: "HMC",
            "vi": lambda: c["sc"]["est"], "ais": lambda: "AIS"}[c["kind"]]()
