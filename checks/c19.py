"""C19: all constructions of one model share its parameters and arguments;
different models share nothing."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import Violation
from sim.executor import SimSession

L2PI = np.log(2 * np.pi)


class Boom(Exception):
    """Raised by a model function."""


def gen(seed, tier):
    r = random.Random("c19-%d" % seed)
    n = r.choice([1, 2, 2, 3])
    models = []
    for i in range(n):
        # several models may come from one decorated function, or from
        # functions that use the same scope name
        form = r.choice(["deco", "deco", "class", "func"])
        models.append({
            "form": form,
            "scope": r.choice(["m", "m", "net%d" % i]),
            "same": i > 0 and r.random() < 0.5,
            "shapes": [r.choice([[], [2], [3]])
                       for _ in range(r.choice([1, 1, 2]))],
            "init": r.choice(["random", "const"]),
            "off": r.randrange(-8, 9) / 4.0, "kw": r.random() < 0.5,
            "inner": r.randrange(i) if i and r.random() < 0.4 else None})
        if models[-1]["same"]:
            models[-1] = dict(models[0], same=True,
                              off=models[-1]["off"], inner=None)
            if random.Random("c19-twin-%d-%d" % (seed, i)).random() < 0.5:
                # created a second time with the very same arguments
                models[-1].update(off=models[0]["off"], twin=True)
    steps = []
    built = set()
    for _ in range(r.randrange(4, 12 if tier == "quick" else 20)):
        m = r.randrange(n)
        k = r.choice(["build"] * 5 + ["boom", "hmc", "elbo", "assign",
                                      "assign", "eval", "eval", "scoped"])
        st = {"k": k, "m": m, "r": r.getrandbits(30),
              "obs": r.choice(["none", "x", "all", "y"]),
              "where": r.choice(["before", "after"])}
        if k == "boom" and m not in built:
            st["where"] = "before"
        if k in ("build", "hmc", "elbo", "scoped"):
            built.add(m)
        steps.append(st)
    steps.append({"k": "eval", "m": 0, "r": r.getrandbits(30), "obs": "none",
                  "where": "before"})
    return {"seed": seed, "models": models, "steps": steps,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    for i in range(len(sc["steps"]) - 2, -1, -1):
        c = copy.deepcopy(sc)
        del c["steps"][i]
        yield c
    for i in range(len(sc["models"])):
        if sc["models"][i]["inner"] is not None:
            c = copy.deepcopy(sc)
            c["models"][i]["inner"] = None
            yield c
    if len(sc["models"]) > 1:
        i = len(sc["models"]) - 1
        c = copy.deepcopy(sc)
        del c["models"][i]
        c["steps"] = [s for s in c["steps"] if s["m"] != i]
        yield c


class World(object):
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.g = tf.Graph()
        self.metas = []
        self.first = {}          # model -> its variables, first construction
        self.val = {}            # model -> [numpy] current parameter values
        self.cons = []           # constructions: dicts
        self.fail = None
        self.stack = []
        self.deco = {}
        with self.g.as_default():
            self.ph = {}
            for i in range(len(sc["models"])):
                self.metas.append(ctx.lib(self.make, i))
        self.s = SimSession(self.g, sc["seed"], ctx.sched())

    def tag(self, i):
        return "t%d" % (0 if self.sc["models"][i].get("twin") else i)

    def make(self, i):
        m = self.sc["models"][i]
        w = self

        def params(off, idx):
            """The parameters of the model being built."""
            if w.fail == "before":
                raise Boom()
            out = []
            for j, sh in enumerate(m["shapes"]):
                init = tf.random_normal_initializer() \
                    if m["init"] == "random" else \
                    tf.constant_initializer(0.25 * (j + 1))
                out.append(tf.get_variable("p%d" % j, sh, initializer=init))
            return out

        def body(off, tag=None):
            cur = w.stack[-1]
            cur["args"] = (off, tag)
            vs = params(off, i)
            cur["vars"] = vs
            cur.setdefault("all", []).append(vs)
            loc = sum(tf.reduce_sum(v) for v in vs) + off
            if m["inner"] is not None:
                # the model uses another one inside
                inner = w.construct(m["inner"], {})
                if inner is not None:
                    cur["inner"] = inner
            if w.fail == "after":
                raise Boom()
            return vs, loc

        def net(off, tag=None):
            bn = zs.BayesianNet()
            vs, loc = body(off, tag)
            x = bn.normal("x", loc, std=1.)
            bn.normal("y", x + loc, std=1.)
            bn.deterministic("loc", loc)
            return bn

        tag = self.tag(i)
        args, kw = (m["off"],), {"tag": tag}
        if m["kw"]:
            args, kw = (), {"off": m["off"], "tag": tag}
        if m["form"] == "func":
            # a plain function with reused variables
            deco = zs.reuse if m["kw"] else zs.reuse_variables   # alias
            f = deco(m["scope"])(net)
            return lambda: f(*args, **kw)
        if m["form"] == "class":
            args = list(args)
            given = {"args": args, "kwargs": kw}
            if m["kw"] and i % 2:
                del given["args"]       # no ordered arguments
            mb = zs.MetaBayesianNet(net, scope=m["scope"],
                                    reuse_variables=True, **given)
            # the program goes on using its own list and dictionary
            args.append("changed later")
            kw.update(tag="changed later", more=1)
            return mb
        key = 0 if m["same"] else i
        if m["same"] and 0 in self.deco:
            # called again: a model of its own, from the same function
            return self.deco[0](*args, **kw)
        d = zs.meta_bayesian_net(scope=m["scope"], reuse_variables=True)(net)
        self.deco[key] = d
        return d(*args, **kw)

    def construct(self, i, obs, via=None):
        """One construction of model i (via: a function that makes it)."""
        cur = {"m": i, "obs": obs}
        self.stack.append(cur)
        try:
            mb = self.metas[i]
            if via is not None:
                cur["via"] = True
                cur["res"] = via(mb)
            elif self.sc["models"][i]["form"] == "func":
                # a plain function has the observations it is called under
                cur["obs"] = self.stack[-2]["obs"] \
                    if len(self.stack) > 1 else {}
                cur["bn"] = mb()
            else:
                cur["bn"] = mb.observe(**obs)
        finally:
            self.stack.pop()
        self.note_vars(cur)
        if not any("via" in c for c in self.stack):
            self.cons.append(cur)
        return cur

    def note_vars(self, cur):
        i = cur["m"]
        m = self.sc["models"][i]
        if cur["args"] != (m["off"], self.tag(i)):
            raise Violation("arguments", "model %d was created with arguments "
                            "%s, a construction got %s" % (
                                i, (m["off"], self.tag(i)), cur["args"]))
        for vs in cur["all"]:
            self.note_names(i, vs)

    def note_names(self, i, vs):
        names = [v.op.name for v in vs]
        if i not in self.first:
            for j, o in self.first.items():
                if set(names) & set(o):
                    raise Violation("shared", "models %d and %d use the same "
                                    "variables %s" % (i, j, sorted(
                                        set(names) & set(o))))
            self.first[i] = names
            self.pvars = getattr(self, "pvars", {})
            self.pvars[i] = vs
        elif names != self.first[i]:
            raise Violation("not-shared", "a later construction of model %d "
                            "uses variables %s, the first one %s"
                            % (i, names, self.first[i]))


def run(sc, ctx):
    w = World(sc, ctx)
    s = w.s
    known = set()

    def build(f, *a):
        with w.g.as_default():
            return f(*a)

    def init_new():
        with w.g.as_default():
            new = [v for v in tf.global_variables()
                   if v.op.name not in known]
            if new:
                ctx.lib(s.run, tf.variables_initializer(new))
        for v in new:
            known.add(v.op.name)
        for i, vs in getattr(w, "pvars", {}).items():
            if i not in w.val:
                w.val[i] = [s.get(v) for v in vs]

    for k, st in enumerate(sc["steps"]):
        r = random.Random(st["r"])
        i = st["m"]
        m = sc["models"][i]
        kind = st["k"]
        ctx.probes["step-" + kind] += 1
        if kind in ("build", "scoped"):
            obs = {}
            if st["obs"] in ("x", "all"):
                obs["x"] = tf_const(w, r)
            if st["obs"] in ("y", "all"):
                obs["y"] = tf_const(w, r)
            first = i not in w.first
            inner = m["inner"]
            again = not first and (inner is None or inner in w.first)
            before = build(lambda: len(tf.global_variables()))

            def go():
                if kind == "scoped" and not first:
                    # from inside another variable scope of the program
                    with tf.variable_scope("other%d" % k):
                        return w.construct(i, obs)
                return w.construct(i, obs)
            build(ctx.lib, go)
            more = build(lambda: len(tf.global_variables())) - before
            if again and more:
                raise Violation("not-shared", "constructing model %d again "
                                "created %d new variables" % (i, more))
        elif kind == "boom":
            if st["where"] == "after" and i not in w.first:
                continue
            inner = m["inner"]
            if inner is not None and inner not in w.first:
                continue
            w.fail = st["where"]
            try:
                build(lambda: w.construct(i, {}))
            except Boom:
                ctx.faults["construction-failed-%s-parameters"
                           % st["where"]] += 1
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                from sim.core import LibError
                raise LibError("%s: %s" % (type(e).__name__, e)) from e
            finally:
                w.fail = None
        elif kind == "hmc" and m["form"] != "func":
            with w.g.as_default():
                z = tf.Variable(np.full([2], 0.5, np.float32))

                def go():
                    def via(mb):
                        return zs.HMC(step_size=0.1, n_leapfrogs=1).sample(
                            mb, {"y": tf.constant([0.5, 1.5])}, {"x": z})
                    c = w.construct(i, {}, via)
                    return c
                c = ctx.lib(go)
                c["z"] = z
        elif kind == "elbo" and m["form"] != "func":
            with w.g.as_default():
                def go():
                    q = zs.BayesianNet()
                    q.normal("x", tf.constant([0.25, -0.5]), std=1.)

                    def via(mb):
                        e = zs.variational.elbo(
                            mb, {"y": tf.constant([0.5, 1.5])}, variational=q)
                        return e.tensor, q
                    return w.construct(i, {}, via)
                ctx.lib(go)
        elif kind == "assign" and i in w.first:
            init_new()
            vs = w.pvars[i]
            j = r.randrange(len(vs))
            v = np.asarray([r.randrange(-16, 17) / 8.0 for _ in range(
                int(np.prod(vs[j].shape.as_list() or [1])))], np.float32)
            v = v.reshape(vs[j].shape.as_list())
            # through the variable object some construction got
            cs = [c for c in w.cons if c["m"] == i]
            if not cs:
                continue
            c = r.choice(cs)
            with w.g.as_default():
                op = tf.assign(c["vars"][j], v)
            ctx.lib(s.run, op)
            w.val[i][j] = v
        if kind == "eval":
            init_new()
            evaluate(w, ctx, k, r)


def tf_const(w, r):
    with w.g.as_default():
        return tf.constant(r.randrange(-16, 17) / 8.0)


def evaluate(w, ctx, k, r):
    s = w.s
    f = {}
    for n, c in enumerate(w.cons):
        if "bn" not in c:
            continue
        bn = c["bn"]
        with w.g.as_default():
            def q():
                d = {"vars": [tf.identity(v) for v in c["vars"]],
                     "loc": bn["loc"], "x": bn["x"], "y": bn["y"]}
                lj = bn.log_joint()
                d["lj"] = lj
                d["grad"] = tf.gradients(bn.cond_log_prob("x"), c["vars"])
                return d
            if "handle" not in c or r.random() < 0.2:
                c["handle"] = ctx.lib(q)
        f["c%d" % n] = c["handle"]
    for n, c in enumerate(w.cons):
        if "res" in c and "z" not in c:
            t, q = c["res"]
            with w.g.as_default():
                f["e%d" % n] = {"t": t, "x": ctx.lib(
                    lambda: tf.convert_to_tensor(q["x"])),
                    "lq": ctx.lib(lambda: q.cond_log_prob("x"))}
    if f:
        out = ctx.lib(s.run, f)
        for n, c in enumerate(w.cons):
            val = w.val[c["m"]]
            loc = sum(float(np.sum(v, dtype=np.float64)) for v in val) + \
                w.sc["models"][c["m"]]["off"]
            what = "evaluation %d, construction %d of model %d" % (
                k, n, c["m"])
            if "bn" in c:
                o = out["c%d" % n]
                for v, got in zip(val, o["vars"]):
                    if not np.array_equal(v, got):
                        raise Violation("parameter", "%s sees parameter %s, "
                                        "its value is %s" % (what, got, v))
                if not np.allclose(o["loc"], loc, rtol=1e-4, atol=1e-4):
                    raise Violation("parameter", "%s: the node depending on "
                                    "the parameters is %s, should be %s"
                                    % (what, o["loc"], loc))
                x, y = float(o["x"]), float(o["y"])
                want = -L2PI - 0.5 * (x - loc) ** 2 - \
                    0.5 * (y - x - loc) ** 2
                if not np.allclose(o["lj"], want, rtol=1e-3, atol=1e-3):
                    raise Violation("parameter", "%s: log joint %s, with the "
                                    "current parameters it is %s"
                                    % (what, o["lj"], want))
                for v, gr in zip(val, o["grad"]):
                    if gr is None or not np.allclose(
                            gr, np.full(v.shape, grad_x(c, x, loc)),
                            rtol=1e-3, atol=1e-3):
                        raise Violation("gradient", "%s: the gradient reaching "
                                        "the shared parameter is %s, should be "
                                        "%s" % (what, gr, grad_x(c, x, loc)))
                ctx.probes["constructions-evaluated"] += 1
            elif "z" not in c:
                o = out["e%d" % n]
                x = np.asarray(o["x"], np.float64)
                y = np.array([0.5, 1.5])
                want = -L2PI - 0.5 * (x - loc) ** 2 - \
                    0.5 * (y - x - loc) ** 2 - o["lq"]
                if not np.allclose(o["t"], want, rtol=1e-3, atol=1e-3):
                    raise Violation("parameter", "%s (in an ELBO): %s, with "
                                    "the current parameters it is %s"
                                    % (what, o["t"], want))
    # samplers see the parameters of the moment
    for n, c in enumerate(w.cons):
        if "z" in c:
            op, info = c["res"]
            q0 = np.asarray(s.get(c["z"]), np.float64)
            o = ctx.lib(s.run, {"op": op, "lp": info.orig_log_prob})
            val = w.val[c["m"]]
            loc = sum(float(np.sum(v, dtype=np.float64)) for v in val) + \
                w.sc["models"][c["m"]]["off"]
            y = np.array([0.5, 1.5])
            want = -L2PI - 0.5 * (q0 - loc) ** 2 - 0.5 * (y - q0 - loc) ** 2
            if not np.allclose(o["lp"], want, rtol=1e-3, atol=1e-3):
                raise Violation("parameter", "evaluation %d: HMC on model %d "
                                "sees log joint %s, with the current "
                                "parameters it is %s" % (k, c["m"], o["lp"],
                                                         want))
            ctx.probes["sampler-evaluations"] += 1


def grad_x(c, x, loc):
    """d cond_log_p(x) / d loc: through the density only if x is observed;
    a reparameterised sample moves with its location."""
    if "x" in c["obs"]:
        return x - loc
    return 0.0
