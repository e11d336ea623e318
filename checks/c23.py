"""C23: a normalizing flow stays an exact change of variables along every
training history."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
from zhusuan import transform

from sim.core import LibError, Violation
from sim.executor import SimFault, SimSession
from sim.rng import stream


def gen(seed, tier):
    r = random.Random("c23-%d" % seed)
    d = r.choice([1, 2, 2, 3, 4])
    lead = r.choice([[1], [4], [6], [2, 3], [3, 2], [6, 1], [2, 1, 3]])
    calls = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["planar", "planar", "iaf", "iaf", "user"])
        calls.append({"kind": k, "n": r.choice([1, 1, 2, 3]),
                      "update": r.choice(["normal", "gru", None])
                      if k != "planar" else None, "seed": r.getrandbits(20)})
    steps = []
    for _ in range(r.choice([2, 3, 4] if tier == "quick" else [3, 5, 8])):
        k = r.choice(["train", "train", "train", "jump", "jump", "fault",
                      "restore", "badshape", "none", "far", "far"])
        steps.append({"kind": k, "lr": r.choice([.01, .1, .5]),
                      "times": r.choice([1, 1, 3]), "seed": r.getrandbits(20),
                      "at": r.random(), "scale": r.choice([.3, 1., 1.6]),
                      "far": r.choice([4., 10., 30.]),
                      "zscale": r.choice([.3, 1., 1., 3.]),
                      "part": r.choice(["all", "all", "z", "logp"])})
    r2 = random.Random("c23-large-%d" % seed)
    k = r2.random()
    if k < 0.03:
        d = r2.choice([6, 9])
    elif k < 0.06:
        lead = r2.choice([[17], [40], [9, 3]])
    elif k < 0.09:
        calls[0]["n"] = r2.choice([5, 8])
    return {"seed": seed, "d": d, "lead": lead, "calls": calls,
            "static": r.choice([True, True, False]), "steps": steps,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    for i in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            c = copy.deepcopy(sc)
            del c["steps"][i]
            yield c
    if len(sc["calls"]) > 1:
        for i in range(len(sc["calls"])):
            c = copy.deepcopy(sc)
            del c["calls"][i]
            yield c
    for i, c0 in enumerate(sc["calls"]):
        if c0["n"] > 1:
            c = copy.deepcopy(sc)
            c["calls"][i]["n"] = 1
            yield c


class OneFault(object):
    """Fails the k-th executed operation that is not a fetch or constant."""

    def __init__(self, k, ctx):
        self.k, self.n, self.ctx, self.hit = k, 0, ctx, False

    def before_op(self, sess, node, frame, it, rec):
        if node.op is None or node.type in ("Const", "Placeholder", "NoOp",
                                            "VariableV2"):
            return None
        self.n += 1
        if self.n - 1 == self.k:
            self.hit = True
            self.ctx.faults["op-failure"] += 1
            return SimFault(node.name)
        return None

    def after_op(self, sess, node, frame, it, rec, outs):
        return outs


def user_net(call, d, log):
    """A masked autoregressive function with constants we know."""
    g = np.random.RandomState(call["seed"])
    mm = np.triu(g.uniform(-.6, .6, [d, d]), 1)
    ss = np.triu(g.uniform(-.4, .4, [d, d]), 1)
    c = g.uniform(-.5, .5, d)

    def np_ms(i, z, h):
        h = h * (i + 1)
        return z @ mm + c * h, np.exp(np.tanh(z @ ss + .3 * h))

    def f(name, id, z, hidden):
        log.append((name, id))
        h = hidden * float(id + 1)
        zz = tf.reshape(z, [-1, d])
        m = tf.reshape(tf.matmul(zz, tf.constant(mm, tf.float32)), tf.shape(z))
        s = tf.reshape(tf.matmul(zz, tf.constant(ss, tf.float32)), tf.shape(z))
        return m + tf.constant(c, tf.float32) * h, tf.exp(tf.tanh(s + .3 * h))
    return f, np_ms


class World(object):
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.d, self.lead = sc["d"], tuple(sc["lead"])
        self.g = tf.Graph()
        self.vars, self.nets = [], []
        with self.g.as_default():
            ctx.lib(self.build)
            self.init = tf.global_variables_initializer()

    def build(self):
        sc, d = self.sc, self.d
        ls = list(self.lead) if sc["static"] else [None] * len(self.lead)
        self.x = tf.placeholder(tf.float32, ls + [d])
        self.lp = tf.placeholder(tf.float32, ls)
        self.h = tf.placeholder(tf.float32, ls + [d])
        self.lr = tf.placeholder(tf.float32, [])
        z, lp = self.x, self.lp
        self.mid = []
        for c in sc["calls"]:
            before = set(tf.global_variables())
            net = None
            if c["kind"] == "planar":
                z, lp = transform.planar_normalizing_flow(z, lp, c["n"])
            else:
                kw = {} if c["update"] is None else {"update": c["update"]}
                if c["kind"] == "iaf":
                    z, lp = transform.inv_autoregressive_flow(
                        z, None, lp, transform.linear_ar, c["n"], **kw)
                else:
                    log = []
                    f, net = user_net(c, d, log)
                    z, lp = transform.inv_autoregressive_flow(
                        z, self.h, lp, f, c["n"], **kw)
                    if [i for _, i in log] != list(range(c["n"])):
                        raise Violation("calls", "the autoregressive function "
                                        "was called with ids %s for %d flows"
                                        % ([i for _, i in log], c["n"]))
            self.nets.append(net)
            self.vars.append([v for v in tf.global_variables()
                              if v not in before])
            self.mid.append((z, lp))
        self.z, self.logp = z, lp
        # the whole Jacobian, column by column
        self.jac = []
        for j in range(d):
            g = tf.gradients(self.z[..., j], self.x)[0]
            self.jac.append(tf.zeros_like(self.x) if g is None else g)
        # KL(flow || a narrow, shifted normal)
        self.loss = tf.reduce_mean(
            lp + tf.reduce_sum(2. * tf.square(z - .7), -1))
        tv = tf.trainable_variables()
        self.train = None
        own = [v for vs in self.vars for v in vs]
        if len(tv) != len(own):
            raise Violation("parameters", "%d of %d parameters are trainable"
                            % (len(tv), len(own)))
        if tv:
            gs = tf.gradients(self.loss, tv)
            dead = [v.op.name for v, g in zip(tv, gs) if g is None]
            if dead:
                raise Violation("parameters", "no gradient reaches %s" % dead)
            self.train = tf.train.GradientDescentOptimizer(self.lr) \
                .apply_gradients([(tf.clip_by_value(g, -1., 1.), v)
                                  for g, v in zip(gs, tv)])
        for c, vs in zip(sc["calls"], self.vars):
            if c["kind"] != "user" and len(vs) < c["n"] * 2 and self.d > 1:
                raise Violation("parameters", "%d flows made %d parameters"
                                % (c["n"], len(vs)))

    def session(self, label="main"):
        return SimSession(self.g, self.sc["seed"], self.ctx.sched(label))

    def all_vars(self):
        return [v for vs in self.vars for v in vs]

    def feed(self, seed, scale):
        g = stream("c23", self.sc["seed"], seed)
        x = (g.standard_normal(self.lead + (self.d,)) * scale)
        return {self.x: x.astype(np.float32),
                self.lp: g.standard_normal(self.lead).astype(np.float32),
                self.h: g.uniform(-1, 1, self.lead + (self.d,)).astype(
                    np.float32)}

    def draw_params(self, seed, scale):
        g = stream("c23p", self.sc["seed"], seed)
        out = []
        for v in self.all_vars():
            x = g.standard_normal(v.get_shape().as_list())
            n = np.sqrt(np.sum(x ** 2))
            x = x / max(n, 1e-3) * scale * g.uniform(.3, 1.)
            out.append(x.astype(np.float32))
        return out


def close(a, b, tol):
    return np.all(np.abs(a - b) <= tol)


def check(w, s, fd, step, k, ctx):
    sc, d = w.sc, w.d
    out = ctx.lib(s.run, {"z": w.z, "lp": w.logp, "J": w.jac}, fd)
    z, lp = out["z"].astype(np.float64), out["lp"].astype(np.float64)
    if z.shape != w.lead + (d,) or lp.shape != w.lead:
        raise Violation("shape", "step %d: shapes %s and %s for samples %s"
                        % (k, z.shape, lp.shape, w.lead + (d,)))
    J = np.stack(out["J"], -2).astype(np.float64).reshape(-1, d, d)
    fin = np.isfinite(J).all((1, 2)) & np.isfinite(z.reshape(-1, d)).all(1)
    J = np.where(fin[:, None, None], J, np.eye(d))
    sgn, ld = np.linalg.slogdet(J)
    sv = np.linalg.svd(J, compute_uv=False)
    ok = fin & np.isfinite(ld) & (sv[:, -1] > 0.03) & (sv[:, 0] < 1e4)
    ctx.probes["rows"] += len(ok)
    ctx.probes["rows-stiff"] += int((~ok).sum())
    lin = fd[w.lp].astype(np.float64).reshape(-1)
    got = lp.reshape(-1)
    want = lin - ld
    tol = 2e-4 * (1 + np.abs(ld)) + 1e-5 * np.abs(lin) + \
        2e-6 * sv[:, 0] / np.maximum(sv[:, -1], 1e-9)
    bad = ok & ~(np.abs(got - want) <= tol)
    ctx.note("run", k, np.round(z, 4).tolist(), np.round(lp, 3).tolist())
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(
            "log-det", "step %d (%s): row %d has log probability %.6g, the "
            "map's Jacobian gives %.6g" % (k, step["kind"], i, got[i], want[i]))
    if sc["calls"] and all(c["kind"] == "planar" for c in sc["calls"]):
        rev = ok & (sgn < 0)
        if rev.any():
            raise Violation("invertible", "step %d: the planar flow reverses "
                            "orientation (det %.4g)"
                            % (k, -np.exp(ld[int(np.argmax(rev))])))
    ctx.probes["log-dets"] += int(ok.sum())
    if fin.all():
        form(w, fd, z.reshape(-1, d), J, got, k, ctx)
    # ---- other fetches of the same samples and parameters
    part = {"z": w.z, "logp": w.logp, "all": [w.z, w.logp]}[step["part"]]
    o2 = ctx.lib(s.run, part, fd)
    o2 = o2 if isinstance(o2, list) else [o2]
    ref = {"z": [z], "logp": [lp], "all": [z, lp]}[step["part"]]
    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(o2, ref)):
        raise Violation("repeat", "step %d: another run on the same samples "
                        "and parameters gives other values" % k)
    # ---- rows do not influence each other; log_probs only shift
    f3 = dict(fd)
    flat = fd[w.x].reshape(-1, d).copy()
    j = step["seed"] % len(flat)
    flat[j] += 1.25
    f3[w.x] = flat.reshape(fd[w.x].shape)
    l3 = fd[w.lp].reshape(-1).copy()
    m = (step["seed"] // 7) % len(l3)
    l3[m] += 2.0
    f3[w.lp] = l3.reshape(fd[w.lp].shape)
    z3, lp3 = ctx.lib(s.run, [w.z, w.logp], f3)
    keep = np.arange(len(flat)) != j
    dz = np.abs(z3.reshape(-1, d) - z.reshape(-1, d)).max(-1)
    if (dz[keep] > 1e-5 * (1 + np.abs(z).max())).any():
        raise Violation("mixing", "step %d: changing sample %d moves other "
                        "samples" % (k, j))
    shift = np.zeros(len(flat))
    shift[m] = 2.0
    dl = np.abs(lp3.reshape(-1) - got - shift)
    if (dl[keep] > 1e-4 * (1 + np.abs(got[keep]))).any():
        raise Violation("mixing", "step %d: log probabilities of other samples "
                        "changed with sample %d (or do not follow log_probs)"
                        % (k, j))
    return z, lp


def form(w, fd, z, J, lp, k, ctx):
    """The documented form of the map, where it can be seen from outside."""
    sc, d = w.sc, w.d
    calls = sc["calls"]
    x = fd[w.x].astype(np.float64).reshape(-1, d)
    if all(c["kind"] == "user" for c in calls):
        v, l = x, fd[w.lp].astype(np.float64).reshape(-1)
        h = fd[w.h].astype(np.float64).reshape(-1, d)
        for c, net in zip(calls, w.nets):
            for i in range(c["n"]):
                m, s = net(i, v, h)
                if c["update"] == "gru":
                    s = 1 / (1 + np.exp(-s))
                    v = s * v + (1 - s) * m
                else:
                    v = s * v + m
                l = l - np.log(s).sum(-1)
                v = v[:, ::-1]
        if not close(z, v, 1e-4 * (1 + np.abs(v))) or \
                not close(lp, l, 1e-4 * (1 + np.abs(l))):
            raise Violation("map", "step %d: the autoregressive flow gives %s "
                            "(log prob %s), its definition %s (%s)"
                            % (k, z[0], lp[0], v[0], l[0]))
        ctx.probes["maps-defined"] += 1
    if len(calls) != 1 or calls[0]["n"] != 1:
        return
    c = calls[0]
    if c["kind"] == "iaf":
        # output d-1-j depends on inputs 0..j, on input j increasingly
        T = J[:, ::-1, :]
        if np.abs(np.triu(T, 1)).max(initial=0) > 0:
            raise Violation("order", "step %d: the flow is not autoregressive "
                            "(Jacobian %s)" % (k, T[0].tolist()))
        ctx.probes["orders"] += 1
    if c["kind"] == "planar" and len(x) >= 4:
        # z = x + u t(x), t = tanh(w.x + b):  J - I = u w' (1 - t^2)
        D = z - x
        sc_ = np.abs(D).max()
        A = J - np.eye(d)
        g = np.trace(A, axis1=1, axis2=2)
        if sc_ < 0.05 or sc_ > 20 or np.abs(g).max() < 0.05:
            return
        u = np.linalg.svd(D)[2][0]
        a = D @ u
        off = np.abs(D - np.outer(a, u)).max()
        r1 = np.linalg.svd(A, compute_uv=False)
        if off > 1e-3 * (1 + sc_) or (
                d > 1 and r1[:, 1].max() > 1e-3 * (1 + r1[:, 0].max())):
            raise Violation("map", "step %d: a planar flow moves samples in "
                            "more than one direction" % k)
        X = np.stack([np.ones(len(a)), a ** 2], 1)
        if np.ptp(a ** 2) < 0.05:
            return
        co = np.linalg.lstsq(X, g, rcond=None)[0]
        err = np.abs(X @ co - g).max()
        # g = s (1 - t^2), a = |u| t: slope/intercept = -1/|u|^2
        if err > 2e-3 * (1 + np.abs(g).max()) or co[0] * co[1] > 1e-3:
            raise Violation("map", "step %d: the activation of the planar flow "
                            "is not tanh (its derivative is off by %.3g)"
                            % (k, err))
        ctx.probes["planar-forms"] += 1


def run(sc, ctx):
    w = World(sc, ctx)
    s = w.session()
    ctx.lib(s.run, w.init)
    vs = w.all_vars()
    vals = [s.get(v) for v in vs]
    names = [v.op.name for v in vs]
    same = [(a, b) for i, a in enumerate(vs) for j, b in enumerate(vs)
            if j < i and np.size(vals[i]) > 1 and
            np.shape(vals[i]) == np.shape(vals[j]) and
            np.array_equal(vals[i], vals[j])]
    if same:
        raise Violation("parameters", "parameters %s and %s start with the "
                        "same draw" % (same[0][0].op.name, same[0][1].op.name))
    for k, step in enumerate(sc["steps"]):
        fd = w.feed(step["seed"], step["zscale"])
        kind = step["kind"]
        ctx.probes["step-" + kind] += 1
        if kind in ("train", "fault") and w.train is not None:
            tfd = dict(fd)
            tfd[w.lr] = step["lr"]
            for _ in range(step["times"]):
                ctx.lib(s.run, [w.train, w.loss], tfd)
            if kind == "fault":
                probe = OneFault(-1, ctx)
                ctx.lib(s.run, [w.train, w.loss], tfd, faults=probe)
                f = OneFault(int(step["at"] * probe.n), ctx)
                try:
                    ctx.lib(s.run, [w.train, w.loss], tfd, faults=f)
                except LibError:
                    if not f.hit:
                        raise
        elif kind == "jump" and vs:
            for v, x in zip(vs, w.draw_params(step["seed"], step["scale"])):
                s.set(v, x)
        elif kind == "far" and vs and \
                all(c["kind"] == "planar" for c in sc["calls"]):
            # parameters far away (an overshooting optimizer), then back
            keep = [s.get(v) for v in vs]
            for v, x in zip(vs, w.draw_params(step["seed"], step["far"])):
                s.set(v, x)
            ctx.faults["far-parameters"] += 1
            z, _ = check(w, s, fd, step, k, ctx)
            if not np.isfinite(z).all():
                raise Violation("finite", "step %d: the planar flow gives %s "
                                "at finite parameters" % (k, z.reshape(-1)))
            for v, x in zip(vs, keep):
                s.set(v, x)
        elif kind == "restore" and vs:
            # the process dies; the variables come back in a new program
            saved = dict((v.op.name, s.get(v)) for v in vs)
            z0, l0 = ctx.lib(s.run, [w.z, w.logp], fd)
            w = World(sc, ctx)
            vs = w.all_vars()
            if [v.op.name for v in vs] != names:
                raise Violation("names", "a rebuilt flow has variables %s, the "
                                "checkpoint %s"
                                % ([v.op.name for v in vs], names))
            s = w.session("restored%d" % k)
            ctx.lib(s.run, w.init)
            for v in vs:
                s.set(v, saved[v.op.name])
            fd = w.feed(step["seed"], step["zscale"])
            z1, l1 = ctx.lib(s.run, [w.z, w.logp], fd)
            ctx.faults["crash-restart"] += 1
            if not (np.array_equal(z0, z1) and np.array_equal(l0, l1)):
                raise Violation("restore", "step %d: after a restart with the "
                                "saved parameters the flow differs" % k)
        elif kind == "badshape":
            bad_shape(w, s, fd, k, ctx)
        check(w, s, fd, step, k, ctx)


def bad_shape(w, s, fd, k, ctx):
    """log_probs that do not belong to the samples must not be accepted."""
    lead = w.lead
    if max(lead) == 1:
        return
    small = tuple(1 for _ in lead)
    ctx.faults["mismatched-log-probs"] += 1
    if not w.sc["static"]:
        for sh in (small, lead[::-1], lead[:-1] + (lead[-1] + 1,)):
            if sh == lead:
                continue
            f = dict(fd)
            f[w.lp] = np.zeros(sh, np.float32)
            try:
                out = s.run(w.logp, f)
            except Exception as e:  # noqa: BLE001
                ctx.note("refused", type(e).__name__)
                continue
            raise Violation("accepted", "step %d: log_probs of shape %s are "
                            "accepted for samples of shape %s (-> %s)"
                            % (k, sh, lead + (w.d,), np.shape(out)))
        return
    g = tf.Graph()
    with g.as_default():
        x = tf.placeholder(tf.float32, lead + (w.d,))
        lp = tf.placeholder(tf.float32, lead[1:])
        outs = []
        for f in (lambda: transform.planar_normalizing_flow(x, lp, 1),
                  lambda: transform.inv_autoregressive_flow(
                      x, None, lp, transform.linear_ar, 1)):
            try:
                outs.append(f()[1])
            except ValueError:
                continue
        init = tf.global_variables_initializer()
    s = SimSession(g, w.sc["seed"], ctx.sched("bad%d" % k))
    s.run(init)
    for o in outs:
        # not refused when built: then it is when run
        try:
            out = s.run(o, {x: fd[w.x], lp: np.zeros(lead[1:], np.float32)})
        except Exception as e:  # noqa: BLE001
            ctx.note("refused", type(e).__name__)
            continue
        raise Violation("accepted", "log_probs of shape %s are accepted "
                        "for samples of shape %s (-> %s)"
                        % (lead[1:], lead + (w.d,), np.shape(out)))
