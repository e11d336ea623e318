"""C11: a BayesianNet is one consistent joint draw, whatever the history of
constructions, queries and rejected operations."""
from sim import tfenv  # noqa: F401
import copy
import operator
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import LibError, Violation
from sim.executor import SimSession

L2PI = np.log(2 * np.pi)
OPS = (["add"] * 5 + ["det"] * 2 + ["value"] * 2 + ["clp"] * 2 + ["lj"] * 3 +
       ["meta"] * 3 + ["old"] * 2 + ["use"] * 2 + ["flow"] * 2 +
       ["dup", "dupdet", "unknown", "detclp", "badobs", "setitem"])


# nodes whose first use of all is inside a control-flow construct (those of
# the known findings)
FIXED = [{"flow": f, "what": w} for f in ("loop", "branch")
         for w in ("value", "log_joint")]


def gen(seed, tier):
    if seed % 1000003 < len(FIXED):
        return dict(FIXED[seed % 1000003], seed=seed)
    r = random.Random("c11-%d" % seed)
    batch = r.choice([[], [2], [3]])
    sc = {"seed": seed, "batch": batch, "K": r.choice([None, None, 2, 4]),
          "kdyn": r.random() < 0.3,
          "group": 1 if batch and r.random() < 0.4 else 0,
          "mode": r.choice(["meta", "meta", "meta", "plain", "with"]),
          "override": None, "ops": [], "runs": []}
    if sc["mode"] == "meta" and r.random() < 0.3:
        sc["override"] = r.choice(["first", "double"])
    names = ["x%d" % i for i in range(12)]
    made = []
    for _ in range(r.randrange(5, 14 if tier == "quick" else 24)):
        k = r.choice(OPS) if made else r.choice(["add", "add", "add", "lj0",
                                                 "unknown"])
        op = {"op": k, "r": r.getrandbits(30)}
        if k in ("add", "det"):
            n = names[len(made)] if len(made) < 12 else None
            if n is None:
                continue
            op["name"] = n
            op["parents"] = r.sample(made, min(len(made), r.choice([0, 1, 1, 2])))
            op["fam"] = r.choice(["normal", "normal", "bernoulli"])
            op["obs"] = r.choice([None, None, "array", "tensor", "feed"]) \
                if k == "add" else None
            op["touch"] = r.random() < 0.4
            made.append(n)
        elif k == "badobs":
            op["name"] = "bad%d" % len(sc["ops"])
            op["retry"] = r.random() < 0.6
        sc["ops"].append(op)
    for _ in range(r.choice([1, 2, 3])):
        sc["runs"].append({"r": r.getrandbits(30), "p": r.choice([.3, .7, 1.]),
                           "feed": r.choice([0, 0, 1, 2])})
    sc["sched"] = {"kind": "seed", "seed": r.getrandbits(40)}
    return sc


def shrink(sc):
    if "flow" in sc:
        return
    for i in range(len(sc["ops"]) - 1, -1, -1):
        n = sc["ops"][i].get("name")
        if n and any(n in o.get("parents", []) for o in sc["ops"]):
            continue
        c = copy.deepcopy(sc)
        del c["ops"][i]
        yield c
    if len(sc["runs"]) > 1:
        c = copy.deepcopy(sc)
        c["runs"] = c["runs"][:1]
        yield c


class Net(object):
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.spec = {}            # name -> op, stochastic or deterministic
        self.handles = []         # (kind, data, tensor)
        self.feeds = {}
        self.nodes = {}
        self.batch = tuple(sc["batch"])

    # ---- observations
    def obs_value(self, op):
        r = random.Random(op["r"])
        n = int(np.prod(self.batch)) if self.batch else 1
        if op["fam"] == "normal":
            v = [r.randrange(-16, 17) / 8.0 for _ in range(n)]
            return np.array(v, np.float32).reshape(self.batch)
        return np.array([r.randrange(2) for _ in range(n)],
                        np.int32).reshape(self.batch)

    def observations(self):
        o = {}
        for op in self.sc["ops"]:
            if op["op"] == "add" and op["obs"]:
                v = self.obs_value(op)
                if op["obs"] == "tensor":
                    v = tf.constant(v)
                elif op["obs"] == "feed":
                    ph = tf.placeholder(v.dtype, self.batch)
                    self.feeds[ph] = v
                    v = ph
                o[op["name"]] = v
            elif op["op"] == "badobs":
                # an integer tensor offered to a float node
                o[op["name"]] = tf.constant(
                    np.ones(self.batch, np.int32))
        return o

    # ---- building
    def loc(self, op):
        r = random.Random(op["r"] + 1)
        out = r.randrange(-8, 9) / 8.0
        t = tf.constant(np.full(self.batch, out), tf.float32)
        for p in op["parents"]:
            c = r.choice([0.5, -1.0, 0.25])
            v = self.nodes[p]
            if r.random() < 0.5 and self.is_float(p):
                t = t + v * c          # the operator overloads
            else:
                t = t + tf.cast(tf.convert_to_tensor(v), tf.float32) * c
        return t

    def is_float(self, p):
        return self.spec[p]["op"] == "det" or self.spec[p]["fam"] == "normal"

    def np_loc(self, op, val):
        r = random.Random(op["r"] + 1)
        out = r.randrange(-8, 9) / 8.0
        t = np.full(self.batch, out, np.float64)
        for p in op["parents"]:
            c = r.choice([0.5, -1.0, 0.25])
            r.random()
            t = t + val[p] * c
        return t

    def n_samples(self, op):
        """The sample axis is added by nodes without sampled parents."""
        if self.sc["K"] is None or self.has_axis(op):
            return None
        if op["obs"]:
            return None
        return self.kph if self.sc["kdyn"] else self.sc["K"]

    def has_axis(self, op):
        return any(self.axis.get(p) for p in op["parents"])

    def add(self, bn, op):
        loc = self.loc(op)
        ns = self.n_samples(op)
        g = self.sc["group"]
        old = self.sc["mode"] == "with"
        if op["fam"] == "normal":
            f = zs.Normal if old else bn.normal
            node = f(op["name"], loc, std=1.5, n_samples=ns, group_ndims=g)
        else:
            f = zs.Bernoulli if old else bn.bernoulli
            node = f(op["name"], loc, n_samples=ns, group_ndims=g)
        self.axis[op["name"]] = self.has_axis(op) or ns is not None
        return node

    def rejected(self, what, f, *a, **k):
        bn = self.bn
        before = dict(bn.nodes)
        try:
            f(*a, **k)
        except (ValueError, TypeError, KeyError):
            self.ctx.faults["rejected-" + what] += 1
        else:
            raise Violation("accepted", "%s was accepted" % what)
        if dict(bn.nodes) != before:
            raise Violation(
                "net-changed", "a rejected operation (%s) changed the net: %s "
                "-> %s" % (what, sorted(before), sorted(bn.nodes)))

    def build(self, bn):
        self.bn = bn
        self.axis = {}
        sc = self.sc
        self.kph = tf.placeholder(tf.int32, []) if sc["kdyn"] else None
        if self.kph is not None:
            self.feeds[self.kph] = sc["K"] if sc["K"] is not None else 1
        for op in sc["ops"]:
            r = random.Random(op["r"])
            st = [n for n in self.spec if self.spec[n]["op"] == "add"]
            dt = [n for n in self.spec if self.spec[n]["op"] == "det"]
            k = op["op"]
            self.ctx.probes["op-" + k] += 1
            if k == "add":
                self.nodes[op["name"]] = self.add(bn, op)
                self.spec[op["name"]] = op
                if op["touch"]:
                    self.value(op["name"], r)
            elif k == "det":
                t = bn.deterministic(op["name"], self.loc(op))
                self.axis[op["name"]] = self.has_axis(op)
                self.nodes[op["name"]] = t
                self.spec[op["name"]] = op
                self.handles.append(("val", op["name"], t))
            elif k == "value" and self.spec:
                self.value(r.choice(sorted(self.spec)), r)
            elif k == "clp" and st:
                n = r.choice(st)
                form = r.randrange(3)
                if form == 0:
                    t = self.nodes[n].cond_log_p
                    self.handles.append(("clp", n, t))
                elif form == 1:
                    self.handles.append(("clp", n, bn.cond_log_prob(n)))
                else:
                    sub = r.sample(st, r.randrange(1, len(st) + 1))
                    for m, t in zip(sub, bn.cond_log_prob(sub)):
                        self.handles.append(("clp", m, t))
            elif k == "meta" and self.spec:
                self.meta(r.choice(sorted(self.spec)), r)
            elif k == "use" and self.spec:
                self.use(r.choice(sorted(self.spec)), r)
            elif k == "flow" and self.spec:
                self.flow(r.choice(sorted(self.spec)), r)
            elif k == "old" and st:
                sub = r.sample(st, r.randrange(1, len(st) + 1))
                one = sub[0]
                form = r.randrange(6)
                if form == 0:
                    self.handles.append(("val", one, bn.outputs(one)))
                elif form == 1:
                    for m, t in zip(sub, bn.outputs(sub)):
                        self.handles.append(("val", m, t))
                elif form == 2:
                    self.handles.append(("clp", one, bn.local_log_prob(one)))
                elif form == 3:
                    for m, t in zip(sub, bn.local_log_prob(sub)):
                        self.handles.append(("clp", m, t))
                elif form == 4:
                    a, b = bn.query(one, outputs=True, local_log_prob=True)
                    self.handles += [("val", one, a), ("clp", one, b)]
                else:
                    for m, (a, b) in zip(sub, bn.query(
                            sub, outputs=True, local_log_prob=True)):
                        self.handles += [("val", m, a), ("clp", m, b)]
            elif k in ("lj", "lj0"):
                if st:
                    self.handles.append(("lj", list(st), bn.log_joint()))
            elif k == "dup":
                n = r.choice(sorted(self.spec))
                cur = dict(self.spec[n], parents=[], fam=r.choice(
                    ["normal", "bernoulli"]), obs="array")
                self.rejected("duplicate-stochastic", self.add_raw, bn, cur)
            elif k == "dupdet":
                n = r.choice(sorted(self.spec))
                self.rejected("duplicate-deterministic", bn.deterministic, n,
                              tf.constant(3.0))
            elif k == "unknown":
                f = r.choice([bn.get, bn.cond_log_prob,
                              lambda n: bn[n]])
                self.rejected("unknown-name", f, "no_such_node")
            elif k == "detclp" and dt:
                self.rejected("log-prob-of-deterministic", bn.cond_log_prob,
                              r.choice(dt))
            elif k == "setitem" and self.spec:
                n = r.choice(sorted(self.spec))
                self.rejected("item-assignment", bn.__setitem__, n,
                              tf.constant(1.0))
            elif k == "badobs" and sc["mode"] != "plain":
                n = op["name"]
                fake = {"name": n, "parents": [], "fam": "normal",
                        "obs": "array", "r": op["r"]}
                self.rejected("incompatible-observation", self.add_raw, bn,
                              fake)
                if op["retry"]:
                    good = dict(fake, op="add", fam="bernoulli", ones=True)
                    self.nodes[n] = self.add(bn, good)
                    self.spec[n] = good
            if set(bn.nodes) != set(self.spec):
                raise Violation("nodes", "after %s the net has nodes %s, %s "
                                "were added" % (k, sorted(bn.nodes),
                                                sorted(self.spec)))
        st = [n for n in self.spec if self.spec[n]["op"] == "add"]
        for n in sorted(self.spec):
            self.handles.append(("val", n, tf.convert_to_tensor(
                bn.get(n))))
        if st:
            self.handles.append(("lj", list(st), bn.log_joint()))
            st = st[1::2] + st[::2][::-1]
            for n, t in zip(st, bn.cond_log_prob(st)):
                self.handles.append(("clp", n, t))
        return bn

    def add_raw(self, bn, op):
        keep = dict(self.axis)
        try:
            return self.add(bn, op)
        finally:
            self.axis = keep

    def value(self, n, r):
        bn = self.bn
        form = r.randrange(4)
        if form == 0:
            t = bn[n]
        elif form == 1:
            names = r.sample(sorted(self.spec), r.randrange(len(self.spec)))
            if n not in names or r.random() < 0.2:
                names.insert(r.randrange(len(names) + 1), n)
            got = bn.get(names if r.random() < 0.5 else tuple(names))
            if len(got) != len(names):
                raise Violation("nodes", "get(%s) returns %d nodes"
                                % (names, len(got)))
            for m, t in zip(names, got):
                self.handles.append(("val", m, tf.convert_to_tensor(t)))
            return
        elif form == 2:
            t = self.nodes[n]
        else:
            t = tf.identity(self.nodes[n])
        self.handles.append(("val", n, t))

    def meta(self, n, r):
        """Queries that must leave the net as it was."""
        bn, node = self.bn, self.nodes[n]
        if not isinstance(node, zs.StochasticTensor):
            return
        op = self.spec[n]
        observed = bool(op.get("obs")) and (
            self.sc["mode"] != "plain")
        form = r.randrange(8)
        if form == 0:
            node.get_shape()
        elif form == 1:
            _ = node.shape, node.dtype
        elif form == 2:
            if node.is_observed() != observed:
                raise Violation("observed", "node %r reports is_observed() = "
                                "%s" % (n, node.is_observed()), node=n)
        elif form == 3:
            node.dist.sample(self.sc["K"])
        elif form == 4:
            node.sample(2)
        elif form == 5:
            node.dist.log_prob(node)
            node.dist.prob(tf.convert_to_tensor(node))
        elif form == 6:
            node.log_prob(node.tensor)
        else:
            if node.name != n or node.bn is not bn or node.net is not bn or \
                    node.distribution is not node.dist:
                raise Violation("node", "node %r does not describe itself" % n,
                                node=n)

    def np_dtype(self, n):
        return np.float32 if self.is_float(n) else np.int32

    def use(self, n, r):
        """The node inside expressions, whose value is that of the node."""
        x = self.nodes[n]
        form = r.randrange(9)
        if form > 5:
            return self.expr(n, r)
        if form == 5:
            z = np.zeros(self.batch, self.np_dtype(n))
            t = z + x if r.random() < 0.5 else z - (-x)
        elif form == 0:
            t = x + 0 if self.is_float(n) else 1 * x
        elif form == 1:
            t = -(-x) if self.is_float(n) else x + 0
        elif form == 2 and self.batch and not self.axis.get(n):
            t = tf.stack([x[i] for i in range(self.batch[0])])
        elif form == 3:
            t = tf.stop_gradient(x)
        else:
            t = tf.reshape(x, tf.shape(x))
        self.handles.append(("val", n, t))

    def expr(self, n, r):
        """The node as an operand of an operator."""
        x = self.nodes[n]
        flt = self.is_float(n)
        name = r.choice(sorted(FLT if flt else INT))
        f = BINARY[name]
        dt = self.np_dtype(n)
        m = None
        if name in ("abs", "neg"):
            c = None
            t = f(x)
        else:
            same = [k for k in sorted(self.nodes) if self.is_float(k) == flt]
            kind = r.choice(["number", "array", "tensor", "node"])
            c = r.choice([1.5, 2.25, 3.]) if flt else r.choice([2, 3])
            if kind == "array":
                c = np.full(self.batch or (), c, dt)
            if kind == "tensor":
                o = tf.constant(c, dt)
            elif kind == "node" and name not in DIVIDES and "pow" not in name:
                m = r.choice(same)
                o = self.nodes[m]
            else:
                o = c
            t = f(o, x) if name[0] == "r" else f(x, o)
        if r.random() < 0.3 and self.batch:
            # an element of the result, or of the node itself
            i = r.randrange(self.batch[0])
            t, g = t[..., i], lambda v: v[..., i]
        else:
            g = None
        self.ctx.probes["expr-" + name] += 1
        self.handles.append(("expr", (n, name, c, m, g), t))

    def flow(self, n, r):
        """The node inside a branch or a loop, its value being there before."""
        x = self.nodes[n]
        clp = self.spec[n]["op"] == "add" and r.random() < 0.4
        if clp:
            x = x.cond_log_p
        else:
            tf.convert_to_tensor(x)
        if r.random() < 0.5:
            ph = tf.placeholder(tf.bool, [])
            self.feeds[ph] = r.random() < 0.5
            t = tf.cond(ph, lambda: tf.identity(x), lambda: -(-x))
        else:
            _, t = tf.while_loop(lambda i, a: i < 2, lambda i, a: (i + 1, a + x),
                                 [0, tf.zeros_like(x)])
            t = t / 2 if clp or self.is_float(n) else t // 2
        self.handles.append(("clp" if clp else "val", n, t))

    # ---- numpy
    def logp(self, n, val):
        op = self.spec[n]
        loc = self.np_loc(op, val)
        x = val[n]
        if op["fam"] == "normal":
            t = -0.5 * L2PI - np.log(1.5) - 0.5 * ((x - loc) / 1.5) ** 2
        else:
            t = x * loc - np.logaddexp(0, loc)
        return t.sum(-1) if self.sc["group"] else t


BINARY = {
    "abs": abs, "neg": operator.neg, "add": operator.add,
    "radd": operator.add, "sub": operator.sub, "rsub": operator.sub,
    "mul": operator.mul, "rmul": operator.mul, "div": operator.truediv,
    "rdiv": operator.truediv, "floordiv": operator.floordiv,
    "rfloordiv": operator.floordiv, "mod": operator.mod,
    "rmod": operator.mod, "pow": operator.pow, "rpow": operator.pow,
    "lt": operator.lt, "le": operator.le, "gt": operator.gt,
    "ge": operator.ge,
}
FLT = set(BINARY) - {"pow"}
DIVIDES = {"div", "rdiv", "floordiv", "rfloordiv", "mod", "rmod"}
# a Bernoulli node may be zero
INT = set(BINARY) - {"rdiv", "rfloordiv", "rmod"}


def expected(key, val, flt):
    """-> the value of the expression, and where it is well conditioned"""
    n, name, c, m, g = key
    dt = np.float32 if flt else np.int32
    x = val[n].astype(dt)
    if name in ("abs", "neg"):
        w, ok = BINARY[name](x), True
    else:
        y = (val[m] if m is not None else np.asarray(c)).astype(dt)
        a, b = (y, x) if name[0] == "r" else (x, y)
        w, ok = BINARY[name](a, b), True
        if flt and ("floordiv" in name or "mod" in name):
            q = a.astype(np.float64) / b
            ok = (np.abs(q - np.round(q)) > 1e-3) & (np.abs(q) < 1e3)
        elif flt and "div" in name:
            ok = np.abs(b) > 1e-3
    w, ok = np.asarray(w), np.broadcast_to(ok, np.shape(w))
    return (w, ok) if g is None else (g(w), g(ok))


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(
        a, b, rtol=2e-4, atol=2e-4)


def first_use(sc, ctx):
    """A node (or log joint) used first inside a loop or branch, then again."""
    g = tf.Graph()
    cause = "first-use-in-" + sc["flow"]

    def build():
        bn = zs.BayesianNet()
        bn.normal("x", tf.zeros([2]), std=1.)

        def use():
            return tf.identity(bn["x"]) if sc["what"] == "value" else \
                bn.log_joint()
        if sc["flow"] == "loop":
            a, b = tf.while_loop(
                lambda i, *_: i < 2, lambda i, a, b: (i + 1, b, use()),
                [0, tf.zeros([2]), tf.zeros([2])])[1:]
        else:
            a = b = tf.cond(ph, use, use)
        return a, b, use()

    try:
        with g.as_default():
            ph = tf.placeholder(tf.bool, [])
            t = ctx.lib(build)
        s = SimSession(g, sc["seed"], ctx.sched())
        outs = [ctx.lib(s.run, t, {ph: v}) for v in (True, False)]
    except LibError as e:
        raise Violation("control-flow", "the %s of a node, first used in a %s, "
                        "cannot be used again: %s"
                        % (sc["what"], sc["flow"], e), cause=cause)
    for out in outs:
        ctx.note([np.asarray(v).tolist() for v in out])
        if not all(np.array_equal(v, out[0]) for v in out):
            raise Violation("control-flow", "the %s of a node, first used in a "
                            "%s, has the values %s in one run"
                            % (sc["what"], sc["flow"],
                               [v.tolist() for v in out]), cause=cause)


def run(sc, ctx):
    if "flow" in sc:
        return first_use(sc, ctx)
    g = tf.Graph()
    net = Net(sc, ctx)
    with g.as_default():
        obs = net.observations()

        def build():
            if sc["mode"] == "meta":
                @zs.meta_bayesian_net()
                def model():
                    return net.build(zs.BayesianNet())
                mb = model()
                if sc["override"]:
                    def over(bn):
                        st = [n for n in bn.nodes
                              if isinstance(bn.nodes[n],
                                            zs.StochasticTensor)]
                        if sc["override"] == "first":
                            return bn.cond_log_prob(sorted(st)[0])
                        return 2.0 * sum(bn.cond_log_prob(sorted(st)))
                    mb.log_joint = over
                return mb.observe(**obs)
            if sc["mode"] == "with":
                with zs.BayesianNet(observed=obs) as bn:
                    return net.build(bn)
            return net.build(zs.BayesianNet())
        bn = ctx.lib(build)
        del bn
    if sc["mode"] == "plain":
        for op in net.spec.values():
            op["obs"] = None if op["op"] == "add" else op.get("obs")
    if not net.handles:
        return
    s = SimSession(g, sc["seed"], ctx.sched())
    last = None
    for k, rn in enumerate(sc["runs"]):
        r = random.Random(rn["r"])
        pick = [h for h in net.handles
                if h[0] == "val" or r.random() < rn["p"]]
        feeds, fed = dict(net.feeds), {}
        if rn.get("feed") and last:
            # values given for nodes in this run only
            free = sorted(n for n, o in net.spec.items() if o["op"] == "add"
                          and not o.get("obs"))
            for n in r.sample(free, min(len(free), rn["feed"])):
                v = np.array(last[n])
                v = np.where(np.arange(v.size).reshape(v.shape) % 2 == 0,
                             1 - v if net.spec[n]["fam"] == "bernoulli"
                             else v + 0.5, v)
                fed[n] = v.astype(net.np_dtype(n))
                feeds[net.nodes[n] if r.random() < 0.7 else
                      net.nodes[n].tensor] = fed[n]
                ctx.probes["node-fed"] += 1
        out = ctx.lib(s.run, [h[2] for h in pick], feeds)
        val = {}
        for (kind, n, _), v in zip(pick, out):
            if kind != "val":
                continue
            v = np.asarray(v, np.float64)
            if n in val and not np.array_equal(val[n], v):
                raise Violation("value", "run %d: two uses of node %r see %s "
                                "and %s" % (k, n, val[n], v), node=n)
            val[n] = v
        last = val
        for n in fed:
            if not np.array_equal(val[n], fed[n]):
                raise Violation("fed", "run %d: node %r was fed with %s, its "
                                "value is %s" % (k, n, fed[n], val[n]), node=n)
        ctx.note("v", k, [(n, val[n].tolist()) for n in sorted(val)])
        for n, op in net.spec.items():
            if op["op"] == "det":
                want = net.np_loc(op, val)
                if not np.allclose(val[n], want, rtol=1e-4, atol=1e-4):
                    raise Violation("value", "run %d: deterministic node %r is "
                                    "%s, its inputs give %s"
                                    % (k, n, val[n], want), node=n)
            elif op.get("obs"):
                want = np.ones(net.batch) if op.get("ones") else \
                    net.obs_value(op)
                if not np.array_equal(val[n], want):
                    raise Violation("observation", "run %d: observed node %r "
                                    "has value %s, observed %s"
                                    % (k, n, val[n], want), node=n)
        lps = {n: net.logp(n, val) for n in net.spec
               if net.spec[n]["op"] == "add"}
        for (kind, n, _), v in zip(pick, out):
            if kind == "expr":
                want, ok = expected(n, val, net.is_float(n[0]))
                v = np.asarray(v)
                if v.shape != want.shape or not np.allclose(
                        v[ok], want[ok], rtol=1e-3, atol=1e-4):
                    raise Violation(
                        "expression", "run %d: %s of node %r (%s) and %s is "
                        "%s, should be %s" % (
                            k, n[1], n[0], val[n[0]], n[3] if n[3] is not None
                            else n[2], v.tolist(), want.tolist()), node=n[0])
                continue
            if kind == "clp" and not eq(v, lps[n]):
                raise Violation("cond-log-prob", "run %d: the conditional log "
                                "probability of %r is %s, at the values of "
                                "this run it is %s" % (k, n, v, lps[n]),
                                node=n)
            if kind == "lj":
                if sc["override"] == "first":
                    want = lps[sorted(n)[0]]
                elif sc["override"]:
                    want = 2.0 * sum(lps[m] for m in n)
                else:
                    want = sum(lps[m] for m in n)
                if not eq(v, want):
                    raise Violation(
                        "log-joint", "run %d: log_joint() taken when the net "
                        "had nodes %s is %s, should be %s" % (k, n, v, want))
                ctx.probes["log-joints"] += 1
