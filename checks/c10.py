"""C10: observations reach exactly the construction they were given to."""
from sim import tfenv  # noqa: F401
import copy
import random
import threading

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import LibError, Violation
from sim.threads import ThreadSim

NAMES = ["a", "b", "c", "d"]


class Boom(Exception):
    """Raised by a model function."""


def _body(r, depth, n_meta):
    """A model function as a list of steps."""
    steps = []
    nets = 0
    for _ in range(r.randrange(2, 7)):
        k = r.random()
        if nets == 0 or k < 0.12:
            steps.append(["net"])
            nets += 1
        elif k < 0.55:
            steps.append(["node", r.randrange(nets), r.choice(NAMES)])
        elif k < 0.63:
            steps.append(["det", r.randrange(nets), "t%d" % len(steps)])
        elif k < 0.7:
            steps.append(["dup", r.randrange(nets)])
        elif k < 0.76:
            steps.append(["badobs", r.choice(NAMES)])
        elif k < 0.9 and depth:
            steps.append(["observe", _call(r, depth - 1, n_meta)])
        elif k < 0.95:
            steps.append(["late", r.choice(NAMES)])
        else:
            steps.append(["boom"])
    if nets == 0:
        steps.append(["net"])
    return steps


def _call(r, depth, n_meta):
    obs = {n: r.randrange(1, 100000) / 8.0
           for n in NAMES if r.random() < 0.45}
    return {"meta": r.randrange(n_meta), "obs": obs,
            "body": _body(r, depth, n_meta)}


def gen(seed, tier):
    r = random.Random("c10-%d" % seed)
    n_meta = r.choice([1, 2, 3])
    metas = [{"scope": r.choice([None, None, "s%d" % i]),
              "reuse": False, "override": r.random() < 0.4}
             for i in range(n_meta)]
    for i, m in enumerate(metas):
        if m["scope"] and r.random() < 0.5:
            m["reuse"] = True
    nthr = r.choice([1, 1, 2, 2, 3])
    threads = []
    for _ in range(nthr):
        prog = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < 0.6:
                prog.append(["observe", _call(r, 2, n_meta)])
            elif k < 0.8:
                prog.append(["outside", _body(r, 1, n_meta)])
            else:
                prog.append(["with", {
                    "obs": {n: r.randrange(1, 100000) / 8.0
                            for n in NAMES if r.random() < 0.5},
                    "nodes": [r.choice(NAMES) for _ in range(
                        r.randrange(1, 4))],
                    "inner": r.random() < 0.4, "boom": r.random() < 0.2}])
        threads.append(prog)
    return {"seed": seed, "metas": metas, "threads": threads,
            "shared": r.random() < 0.6,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    for i in range(len(sc["threads"])):
        if len(sc["threads"]) > 1:
            c = copy.deepcopy(sc)
            del c["threads"][i]
            yield c
        for j in range(len(sc["threads"][i])):
            if len(sc["threads"][i]) > 1:
                c = copy.deepcopy(sc)
                del c["threads"][i][j]
                yield c

    def bodies(o, path=()):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == "body":
                    yield path + (k,)
                yield from bodies(v, path + (k,))
        elif isinstance(o, list):
            if len(o) == 2 and o[0] == "outside":
                yield path + (1,)
            for k, v in enumerate(o):
                if isinstance(v, (dict, list)):
                    yield from bodies(v, path + (k,))
    for p in list(bodies(sc["threads"])):
        o = sc["threads"]
        for k in p:
            o = o[k]
        for j in range(len(o)):
            if o[j][0] == "net":
                continue
            c = copy.deepcopy(sc)
            t = c["threads"]
            for k in p:
                t = t[k]
            del t[j]
            yield c


class Prog(object):
    """One construction thread: runs its program and checks every node against
    the observe() call that is innermost in this thread."""

    def __init__(self, sc, ctx, tid, metas):
        self.sc, self.ctx, self.tid = sc, ctx, tid
        self.metas = metas
        self.stack = []            # (meta index or None, expected obs)
        self.calls = []            # bodies of the model functions being run
        self.graph = tf.Graph()
        self.n = 0

    def fail(self, kind, msg):
        raise Violation(kind, "thread %d: %s" % (self.tid, msg))

    # -- called from inside the model functions
    def body(self, steps):
        env = self.stack[-1]
        nets = []
        last = None
        for st in steps:
            k = st[0]
            if k == "net":
                nets.append({"bn": zs.BayesianNet(), "env": env, "names": set(),
                             "det": set()})
            elif k == "node":
                net = nets[st[1] % len(nets)]
                if st[2] not in net["names"]:
                    self.node(net, st[2])
            elif k == "det":
                net = nets[st[1] % len(nets)]
                net["bn"].deterministic(st[2], tf.constant(1.))
                net["det"].add(st[2])
            elif k == "dup":
                net = nets[st[1] % len(nets)]
                if net["names"]:
                    nm = sorted(net["names"])[0]
                    try:
                        net["bn"].normal(nm, 0., std=1.)
                    except ValueError:
                        self.ctx.faults["rejected-duplicate"] += 1
                    else:
                        self.fail("duplicate", "a second node %r was accepted"
                                  % nm)
            elif k == "badobs":
                # a node whose distribution cannot take the observed value
                nm = st[1]
                net = nets[-1] if nets else None
                if net and nm in env[1] and nm not in net["names"]:
                    try:
                        net["bn"].stochastic(nm, _Refusing())
                    except Boom:
                        self.ctx.faults["rejected-observation"] += 1
            elif k == "observe":
                last = self.observe(st[1])
            elif k == "late":
                # a net built earlier keeps the observations of its own call
                if last is not None and st[1] not in last["names"]:
                    self.node(last, st[1])
                    self.ctx.probes["late-node"] += 1
            elif k == "boom":
                self.ctx.faults["model-exception"] += 1
                raise Boom()
        for net in nets:
            self.joint(net)
        return nets[-1] if nets else None

    def node(self, net, nm):
        meta, obs = net["env"]
        x = net["bn"].normal(nm, 0., std=1.)
        net["names"].add(nm)
        self.ctx.probes["nodes"] += 1
        want = obs.get(nm)
        got = None
        if x.is_observed():
            got = tf.get_static_value(x.tensor)
            got = "a computed tensor" if got is None else float(got)
        elif want is None and x.tensor.op.type == "Const":
            got = "a constant"
        if got != want:
            self.fail("observation", "node %r of a net built %s is %s, should "
                      "be %s" % (nm, "inside observe(%s)" % (obs,)
                                 if meta is not None else
                                 "outside any observe call",
                                 "not observed" if got is None else
                                 "observed with %s" % (got,),
                                 "not observed" if want is None else
                                 "observed with %s" % want))
        if x.tensor.graph is not self.graph:
            self.fail("graph", "node %r lives in another thread's graph" % nm)

    def joint(self, net):
        meta, obs = net["env"]
        over = meta is not None and self.sc["metas"][meta]["override"]
        if not over and not net["names"]:
            return
        lj = net["bn"].log_joint()
        v = tf.get_static_value(tf.convert_to_tensor(lj))
        if over:
            if v is None or float(v) != 1000. + meta:
                self.fail("override", "log_joint() of a net of model %d is "
                          "not that model's own log joint function" % meta)
        elif v is not None:
            self.fail("override", "log_joint() of a net without an overriding "
                      "function is the constant %s" % v)

    def observe(self, call):
        m = call["meta"]
        meta = self.metas[m]
        self.stack.append((m, dict(call["obs"])))
        self.calls.append(call["body"])
        try:
            bn = meta.observe(**call["obs"])
            net = self.ret
            if bn is not net["bn"]:
                self.fail("returned", "observe() did not return the net its "
                          "model function built")
            self.ctx.probes["observe-completed"] += 1
            self.joint(net)
            return net
        except Boom:
            self.ctx.probes["observe-aborted"] += 1
            return None
        finally:
            self.stack.pop()
            self.calls.pop()

    def outside(self, steps):
        self.stack.append((None, {}))
        try:
            self.body(steps)
        except Boom:
            pass
        finally:
            self.stack.pop()

    def with_net(self, p):
        """The deprecated context form."""
        made = set()
        try:
            with zs.BayesianNet(observed=p["obs"]) as bn:
                for nm in p["nodes"]:
                    if nm in made:
                        continue
                    made.add(nm)
                    if p["inner"] and len(made) == 2:
                        with zs.BayesianNet() as other:
                            y = zs.Normal("a", 0., std=1.)
                            if y.is_observed() or y.bn is not other:
                                self.fail("with", "a node of an inner net "
                                          "without observations is observed "
                                          "or belongs to another net")
                    x = zs.Normal(nm, 0., std=1.)
                    want = p["obs"].get(nm)
                    got = float(tf.get_static_value(x.tensor)) \
                        if x.is_observed() else None
                    if got != want or x.bn is not bn:
                        self.fail("with", "node %r in `with BayesianNet(%s)` "
                                  "has observation %s%s" % (
                                      nm, p["obs"], got, "" if x.bn is bn else
                                      " and belongs to another net"))
                if p["boom"]:
                    self.ctx.faults["model-exception"] += 1
                    raise Boom()
            if set(bn.nodes) != made:
                self.fail("with", "net has nodes %s, %s were built in it"
                          % (sorted(bn.nodes), sorted(made)))
        except Boom:
            pass
        z = zs.Normal("a", 0., std=1.)
        if z.is_observed() or z.bn is not None:
            self.fail("with", "a node built after `with BayesianNet` was left "
                      "still belongs to a net")

    def main(self):
        _TL.prog = self
        with self.graph.as_default():
            for k, arg in self.sc["threads"][self.tid]:
                {"observe": self.observe, "outside": self.outside,
                 "with": self.with_net}[k](arg)
            # whatever happened before, a plain net observes nothing
            net = {"bn": zs.BayesianNet(), "env": (None, {}), "names": set()}
            for nm in NAMES:
                self.node(net, nm)
            self.joint(net)


class _Refusing(zs.distributions.Distribution):
    """A distribution that fails while its node is being built."""

    def __init__(self):
        super(_Refusing, self).__init__(tf.float32, tf.float32, False, False)

    def _batch_shape(self):
        raise Boom()

    def _get_batch_shape(self):
        raise Boom()

    def _value_shape(self):
        raise Boom()

    def _get_value_shape(self):
        raise Boom()


_TL = threading.local()


def _make_metas(sc):
    out = []
    for i, m in enumerate(sc["metas"]):
        @zs.meta_bayesian_net(scope=m["scope"], reuse_variables=m["reuse"])
        def build():
            p = _TL.prog
            p.ret = p.body(p.calls[-1])
            return p.ret["bn"]
        mb = build()
        if m["override"]:
            mb.log_joint = lambda bn, i=i: tf.constant(1000. + i)
        out.append(mb)
    return out


def run(sc, ctx):
    progs = []
    shared = _make_metas(sc)
    for t in range(len(sc["threads"])):
        # templates own variables of one graph: never shared between threads
        own = _make_metas(sc)
        metas = [s if sc["shared"] and not m["reuse"] else o
                 for s, o, m in zip(shared, own, sc["metas"])]
        progs.append(Prog(sc, ctx, t, metas))
    sim = ThreadSim(ctx)

    def wrap(p):
        def f():
            try:
                p.main()
            except Violation:
                raise
            except Boom:
                raise RuntimeError("harness: stray exception")
            except Exception as e:  # noqa: BLE001
                raise LibError("thread %d: %s: %s" % (
                    p.tid, type(e).__name__, e)) from e
        return f
    try:
        sim.run([wrap(p) for p in progs])
    finally:
        # a broken run must not disturb the next scenario
        _reset()
    ctx.probes["threads-%d" % len(progs)] += 1


def _reset():
    from zhusuan.framework.meta_bn import Local
    for cls in (Local, zs.BayesianNet):
        try:
            while cls.get_contexts():
                cls.get_contexts().pop()
        except Exception:  # noqa: BLE001
            pass
