"""C17: randomness is fresh and independent across nodes, latents, chains, runs.

Decided by interference: a run is repeated exactly (same seed, state, feeds)
with one element of one random draw replaced, and the outputs that change show
what that draw is used for."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import Violation
from sim.dists import FAMS, tf_params
from sim.executor import SimSession

METHOD = {
    "Normal.std": "normal", "Normal.logstd": "normal",
    "FoldNormal.std": "fold_normal", "FoldNormal.logstd": "fold_normal",
    "Laplace": "laplace", "Uniform": "uniform", "Gamma": "gamma",
    "InverseGamma": "inverse_gamma", "Beta": "beta",
    "BinConcrete": "bin_concrete", "Bernoulli": "bernoulli",
    "Categorical": "categorical", "OnehotCategorical": "onehot_categorical",
    "Poisson": "poisson", "Binomial": "binomial",
    "Multinomial": "multinomial", "Dirichlet": "dirichlet",
    "ExpConcrete": "exp_concrete", "Concrete": "concrete",
    "MultivariateNormalCholesky": "multivariate_normal_cholesky",
    "MatrixVariateNormalCholesky": "matrix_variate_normal_cholesky"}


def gen(seed, tier):
    r = random.Random("c17-%d" % seed)
    sc = {"seed": seed, "kind": r.choice(["net", "net", "net", "hmc", "sg"]),
          "gseed": r.choice([None, None, r.randrange(1, 9999)]),
          "picks": 24, "sched": {"kind": "seed", "seed": r.getrandbits(40)}}
    if sc["kind"] == "net":
        fams = sorted(FAMS)
        base = [r.choice(fams) for _ in range(2)]
        sc["nodes"] = []
        for i in range(r.choice([1, 2, 2, 3, 4])):
            f = FAMS[r.choice(base) if r.random() < 0.6 else r.choice(fams)]
            name = [k for k, v in FAMS.items() if v is f][0]
            batch = r.choice([[], [1], [2], [3], [2, 2]])
            sa, sb = list(batch), list(batch)
            if f.two and batch and r.random() < 0.6:
                if r.random() < 0.5:
                    sa = [1] * len(batch)
                else:
                    sb = r.choice([[], [1] * len(batch)])
            sc["nodes"].append({
                "name": "n%d" % i, "fam": name, "batch": batch, "sa": sa,
                "sb": sb, "n": r.choice([None, None, 1, 2, 3]),
                "nfed": r.random() < 0.3, "pseed": r.getrandbits(30),
                "reparam": r.random() < 0.7, "method": r.random() < 0.6})
        # how the program asks for values: nodes of one net, of two nets of
        # one model, or samples of the distribution itself
        sc["use"] = r.choice(["one", "two", "dist", "dist+one"])
        r2 = random.Random("c17-many-%d" % seed)
        if r2.random() < 0.25:
            # many samples in one call
            del sc["nodes"][2:]
            for nd in sc["nodes"]:
                nd["n"] = r2.choice([4, 8, 10, 16, 17, 64, 1500, 5000])
            sc["picks"] = 12
    elif sc["kind"] == "hmc":
        sc["chain"] = r.choice([[2], [3], [4], [2, 2], [3, 2]])
        sc["lat"] = [{"name": n, "data": r.choice([[], [1], [2], [2, 2]])}
                     for n in r.sample(["z", "w", "a"], r.choice([1, 2, 2]))]
        sc["step"] = r.choice([0.1, 0.5, 1.2])
        sc["leap"] = r.choice([1, 2])
    else:
        sc["alg"] = r.choice(["SGLD", "PSGLD", "SGHMC", "SGNHT"])
        sc["lat"] = [{"name": n, "shape": r.choice([[], [1], [2], [3],
                                                    [2, 2]])}
                     for n in r.sample(["z", "w", "a"], r.choice([1, 2, 2, 3]))]
        sc["n_res"] = r.choice([None, 1, 1, 2])
        sc["second"] = r.random() < 0.5
    return sc


def shrink(sc):
    for k in ("nodes", "lat"):
        if len(sc.get(k, [])) > 1:
            for i in range(len(sc[k])):
                c = copy.deepcopy(sc)
                del c[k][i]
                yield c
    if sc["gseed"] is not None:
        c = copy.deepcopy(sc)
        c["gseed"] = None
        yield c


# --------------------------------------------------------------- programs
class Unit(object):
    """One output tensor.  `cells` = number of leading dimensions whose
    elements must not share draws; `cont`: continuous values."""

    def __init__(self, name, tensor, cells, cont):
        self.name, self.t, self.cells, self.cont = name, tensor, cells, cont


class Program(object):
    def __init__(self, sc, ctx, gseed):
        self.sc, self.ctx = sc, ctx
        self.feeds = {}
        self.units = []
        self.extra = []            # run but not observed
        self.state = []
        self.chains = False
        self.g = tf.Graph()
        with self.g.as_default():
            if gseed is not None:
                tf.set_random_seed(gseed)
            getattr(self, "_" + sc["kind"])()
            self.init = tf.global_variables_initializer()
            if self.g.seed != gseed:
                raise Violation("global-seed", "the library changed the "
                                "graph's random seed to %r" % self.g.seed)

    # -- nets
    def _node(self, nd):
        f = FAMS[nd["fam"]]
        g = np.random.default_rng(nd["pseed"])
        p = f.params(g, tuple(nd["sa"]), tuple(nd["sb"]))
        p = {k: v if isinstance(v, int) else np.asarray(v, "float32")
             for k, v in p.items()}
        tp = tf_params(p, "float32", {}, {})
        kw = {}
        if f.reparam:
            kw["is_reparameterized"] = nd["reparam"]
        n = nd["n"]
        if n is not None and nd["nfed"]:
            ph = tf.placeholder(tf.int32, [])
            self.feeds[ph] = n
            n = ph
        return f, tp, kw, n

    def _net(self):
        sc, ctx = self.sc, self.ctx
        made = [(nd,) + self._node(nd) for nd in sc["nodes"]]
        dists = {}
        if sc["use"].startswith("dist"):
            for nd, f, tp, kw, n in made:
                d = dists[nd["name"]] = ctx.lib(f.make, tp, kw)
                for c in range(2):
                    x = ctx.lib(d.sample, n)
                    self._unit(nd, f, "%s sample() call %d" % (nd["name"],
                                                               c + 1), x)

        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            for nd, f, tp, kw, n in made:
                if nd["name"] in dists:
                    bn.stochastic(nd["name"], dists[nd["name"]], n_samples=n)
                elif nd["method"]:
                    getattr(bn, METHOD[nd["fam"]])(
                        nd["name"], **dict(tp, n_samples=n, **kw))
                else:
                    d = f.make(tp, kw)
                    bn.stochastic(nd["name"], d, n_samples=n)
            return bn
        if sc["use"] != "dist":
            mb = model()
            for c in range(2 if sc["use"] == "two" else 1):
                bn = ctx.lib(mb.observe)
                for nd, f, tp, kw, n in made:
                    t = ctx.lib(lambda: bn[nd["name"]].tensor)
                    self._unit(nd, f, "node %s of net %d" % (nd["name"], c), t)
                    self.extra.append(ctx.lib(
                        lambda: bn.cond_log_prob(nd["name"])))

    def _unit(self, nd, f, name, x):
        cells = len(nd["batch"]) + (nd["n"] is not None)
        self.units.append(Unit(name, x, cells, f.cont))

    # -- samplers on a separable target
    def _hmc(self):
        sc, ctx = self.sc, self.ctx
        ch = sc["chain"]
        g = np.random.default_rng(sc["seed"])
        lat = {l["name"]: tf.Variable(
            g.normal(size=ch + l["data"]).astype(np.float32),
            name="lat_" + l["name"]) for l in sc["lat"]}

        def lj(o):
            t = 0.
            for l in sc["lat"]:
                v = -0.5 * tf.square(o[l["name"]])
                if l["data"]:
                    v = tf.reduce_sum(v, list(range(len(ch), len(ch) +
                                                    len(l["data"]))))
                t = t + v
            return t

        def build():
            return zs.HMC(step_size=sc["step"], n_leapfrogs=sc["leap"]).sample(
                lj, {}, lat)
        op, info = ctx.lib(build)
        self.extra.append(op)
        self.chains = len(ch)
        for l in sc["lat"]:
            n = l["name"]
            self.units.append(Unit("momentum of " + n, info.init_momentum[n],
                                   len(ch) + len(l["data"]), True))
            u = Unit("position of " + n, info.samples[n], len(ch), None)
            u.follows = True
            self.units.append(u)
        self.state = list(lat.values())

    def _sg(self):
        sc, ctx = self.sc, self.ctx
        g = np.random.default_rng(sc["seed"])
        lat = {l["name"]: tf.Variable(
            g.normal(size=l["shape"]).astype(np.float32),
            name="lat_" + l["name"]) for l in sc["lat"]}

        def lj(o):
            return sum(-0.5 * tf.reduce_sum(tf.square(o[l["name"]]))
                       for l in sc["lat"])

        def build():
            a = sc["alg"]
            if a in ("SGLD", "PSGLD"):
                s = getattr(zs, a)(0.05)
            elif a == "SGHMC":
                s = zs.SGHMC(0.05, friction=0.3, n_iter_resample_v=sc["n_res"],
                             second_order=sc["second"])
            else:
                s = zs.SGNHT(0.05, variance_extra=0.1,
                             n_iter_resample_v=sc["n_res"],
                             second_order=sc["second"], use_vector_alpha=True)
            return s.sample(lj, {}, lat)
        op, info = ctx.lib(build)
        self.extra.append(op)
        for l in sc["lat"]:
            self.units.append(Unit("latent " + l["name"], info.q[l["name"]],
                                   len(l["shape"]), True))
        self.state = list(lat.values())


class Perturb(object):
    """Replaces one element of one draw by another legal value."""

    def __init__(self, op, idx):
        self.op, self.idx, self.hit = op, idx, False

    def __call__(self, node, v):
        if node.name != self.op:
            return None
        v = np.array(v)
        f = v.reshape(-1)
        if self.idx >= f.size:
            return None
        self.hit = True
        x = f[self.idx]
        t = node.type
        if t in ("RandomStandardNormal",):
            f[self.idx] = x + 1.3 if x < 0 else x - 1.3
        elif t == "TruncatedNormal":
            f[self.idx] = x * 0.5 + (0.4 if x < 0 else -0.4)
        elif t == "RandomUniform":
            f[self.idx] = (float(x) + 0.4375) % 1.0
        elif t == "RandomGamma":
            f[self.idx] = x * 1.75 + 0.25
        elif t in ("RandomPoissonV2", "RandomPoisson"):
            f[self.idx] = x + 2
        elif t == "Multinomial":
            k = node.op.inputs[0].get_shape().as_list()[-1] or 2
            f[self.idx] = (int(x) + 1) % k
        else:
            return None
        return f.reshape(v.shape)


class Sess(object):
    def __init__(self, p, ctx, seed, label):
        self.p = p
        self.s = SimSession(p.g, seed, ctx.sched(label))
        self.ctx = ctx
        ctx.lib(self.s.run, p.init)

    def run(self):
        out = self.ctx.lib(self.s.run, {
            "u": [u.t for u in self.p.units], "x": self.p.extra},
            self.p.feeds)
        return [np.asarray(v, np.float64) for v in out["u"]]

    def mark(self):
        return (self.s.run_index, self.s.snapshot(), dict(self.s.rng.count))

    def back(self, m):
        self.s.run_index = m[0]
        self.s.rng.count = dict(m[2])
        for k, v in m[1].items():
            if v is not None:
                self.s.set(k, v)


def cell(u, idx):
    return tuple(int(i) for i in idx[:u.cells])


def run(sc, ctx):
    pystate, npstate = random.getstate(), np.random.get_state()
    p = Program(sc, ctx, sc["gseed"])
    a = Sess(p, ctx, sc["seed"], "a")
    base = a.mark()
    first = a.run()
    draws = list(a.s.last.draws)
    second = a.run()
    draws2 = list(a.s.last.draws)
    if random.getstate() != pystate or any(
            not np.array_equal(x, y) for x, y in
            zip(npstate, np.random.get_state())):
        raise Violation("global-rng", "building or running the program moved "
                        "the process-wide Python or NumPy generator")
    for u, v in zip(p.units, first):
        ctx.note(u.name, v.tolist())
    # ---- draws of one run and of different runs are different draws
    seen = {}
    for run_, ds in (("first", draws), ("second", draws2)):
        for d in ds:
            v = np.asarray(d.value)
            if v.dtype.kind != "f" or d.type in ("RandomPoissonV2",
                                                 "RandomPoisson"):
                continue
            if v.dtype == np.float16:
                continue
            key = (d.type, v.tobytes())
            if v.size and key in seen and np.any(v != 0):
                if v.size == 1 and d.type == "RandomUniform":
                    continue
                raise Violation("same-stream", "%s (run %s) returns the same "
                                "numbers as %s (run %s)"
                                % (d.op, run_, seen[key][0], seen[key][1]))
            seen[key] = (d.op, run_)
    # ---- re-running draws anew
    fresh(p, first, second, "re-running the operation", ctx, a)
    # ---- another seed of the world gives other numbers, unless seeded
    b = Sess(p, ctx, sc["seed"] + 7919, "b")
    other = b.run()
    if sc["gseed"] is None:
        fresh(p, first, other, "a new process", ctx, b)
    else:
        p2 = Program(sc, ctx, sc["gseed"])
        c = Sess(p2, ctx, sc["seed"] + 104729, "c")
        for i, want in enumerate([first, second]):
            got = c.run()
            for u, x, y in zip(p.units, want, got):
                if not np.array_equal(x, y):
                    raise Violation(
                        "not-reproducible", "run %d of the same program under "
                        "the same graph seed gives another %s" % (i, u.name))
        p3 = Program(sc, ctx, sc["gseed"] + 1)
        d = Sess(p3, ctx, sc["seed"], "d")
        fresh(p, first, d.run(), "another graph seed", ctx, d)
        ctx.probes["seeded-programs"] += 1
    # ---- interference
    elems = []
    for d in draws:
        n = np.asarray(d.value).size
        elems += [(d.op, d.type, i) for i in range(n)]
    r = ctx.rng("picks")
    if len(elems) > sc["picks"]:
        elems = r.sample(elems, sc["picks"])
    used_by = {}
    for op, typ, i in elems:
        a.back(base)
        pert = Perturb(op, i)
        a.s.rng.override = pert
        got = a.run()
        a.s.rng.override = None
        if not pert.hit:
            continue
        ctx.faults["draw-replaced"] += 1
        hit = {}
        for u, x, y in zip(p.units, first, got):
            if x.shape != y.shape:
                raise Violation("shape", "%s changed shape" % u.name)
            diff = np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))
            for ix in diff:
                hit.setdefault(u.name, (u, set()))[1].add(cell(u, ix))
        if not hit:
            ctx.probes["draw-without-effect"] += 1
            continue
        ctx.probes["draw-with-effect"] += 1
        main = {k: v for k, v in hit.items()
                if not getattr(v[0], "follows", False)}
        if p.chains is not False:
            chains = set(c[:p.chains] for _, cs in hit.values() for c in cs)
            if len(chains) > 1:
                raise Violation("shared-draw", "element %d of draw %s is used "
                                "by chains %s" % (i, op, sorted(chains)))
        if len(main) > 1:
            raise Violation("shared-draw", "element %d of draw %s is used by "
                            "%s" % (i, op, " and by ".join(sorted(main))))
        for k, (u, cs) in main.items():
            if len(cs) > 1:
                raise Violation("shared-draw", "element %d of draw %s is used "
                                "by elements %s of %s" % (i, op,
                                                          sorted(cs)[:4], k))


def fresh(p, x, y, what, ctx, s):
    """every continuous element differs; discrete tensors vary eventually"""
    for k, u in enumerate(p.units):
        if u.cont is None:
            continue
        if u.cont:
            # samples may have rounded to the end of the support
            edge = (x[k] == 0) | (np.abs(x[k] - 1) < 1e-6) | \
                ~np.isfinite(x[k])
            bad = (x[k] == y[k]) & ~edge
            if bad.any() and confirm(s, k, x[k], bad):
                raise Violation("stale", "%s leaves %s at the same value(s) %s"
                                % (what, u.name, x[k][bad].ravel()[:3]))
        elif x[k].size >= 4:
            if np.array_equal(x[k], y[k]):
                for _ in range(40):
                    if not np.array_equal(s.run()[k], x[k]):
                        break
                else:
                    raise Violation("stale", "%s leaves %s at the same values"
                                    % (what, u.name))


def confirm(s, k, x, bad):
    """a coincidence is possible: is it the same once more?"""
    return bool(np.all(s.run()[k][bad] == x[bad]))
