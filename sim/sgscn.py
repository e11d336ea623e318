"""Scenario generation and driving for the SGMCMC checks."""
from . import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from . import models
from .core import Violation
from .executor import SimSession
from .sgref import SGRef, Pool

ALGS = ["SGLD", "PSGLD", "SGHMC", "SGNHT"]


def gen(seed, tier, algs=ALGS, n_choices=(None, 0, 1, 2, 3, 5), min_latents=1,
        iters=(3, 8)):
    r = random.Random("sg-%d" % seed)
    alg = r.choice(algs)
    cfg = {"alg": alg, "lr_mode": r.choice(["const", "const", "fed"])}
    if alg in ("SGLD", "PSGLD"):
        cfg["lr"] = r.choice([0.01, 0.05, 0.2])
        if alg == "PSGLD":
            cfg["default_hps"] = r.random() < 0.3
            cfg["decay"] = 0.9 if cfg["default_hps"] else r.choice([0.5, 0.75, 0.99])
            cfg["epsilon"] = 1e-3 if cfg["default_hps"] else r.choice([0.01, 0.1])
    else:
        cfg["lr"] = r.choice([0.01, 0.03, 0.1])
        cfg["second_order"] = r.random() < 0.5
        cfg["n"] = r.choice(list(n_choices))
        cfg["n_mode"] = "const" if cfg["n"] is None else r.choice(
            ["const", "fed"])
        if alg == "SGHMC":
            cfg["friction"] = r.choice([0.1, 0.25, 0.5])
            cfg["beta"] = r.choice([0.0, 0.0, 0.05, cfg["friction"]])
        else:
            cfg["a"] = r.choice([0.0, 0.1, 0.25])
            cfg["tune_rate"] = r.choice([0.5, 1.0, 2.0])
            cfg["vec"] = r.random() < 0.5
    n_it = r.randrange(*iters)
    # hyperparameters left at their documented defaults; long histories
    r2 = random.Random("sg-omit-%d" % seed)
    long = 0.02
    if alg in ("SGHMC", "SGNHT") and r2.random() < 0.1:
        cfg.update(omit=True, second_order=True, n_mode="const")
        if alg == "SGHMC":
            cfg.update(friction=0.25, beta=0.0, n=20)
            long = 0.5
        else:
            cfg.update(a=0.0, tune_rate=1.0, n=None, vec=True)
    # hyperparameters given as tensors instead of numbers
    cfg["hp"] = random.Random("sg-hp-%d" % seed).choice(
        ["number"] * 4 + ["tensor"])
    if r2.random() < long:
        n_it = r2.choice([22, 42])
    n_fed = cfg.get("n_mode") == "fed" and r.random() < 0.5
    return {"seed": seed, "model": models.gen_model(r, min_latents=min_latents),
            "cfg": cfg,
            "iters": [{"x": r.randrange(-32, 33) / 16.0,
                       "lr_mul": r.choice([1.0, 0.5, 0.25]),
                       "n": r.choice([cfg["n"], cfg["n"], 0, 1, 2, 3])
                       if n_fed else cfg.get("n"),
                       "fetch": r.choice(["op", "all", "all", "q"])}
                      for _ in range(n_it)],
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    if len(sc["iters"]) > 1:
        c = copy.deepcopy(sc)
        c["iters"] = c["iters"][:-1]
        yield c
        c = copy.deepcopy(sc)
        c["iters"] = c["iters"][1:]
        yield c
    if len(sc["model"]["latents"]) > 1:
        for i in range(len(sc["model"]["latents"])):
            c = copy.deepcopy(sc)
            del c["model"]["latents"][i]
            yield c
    for i, l in enumerate(sc["model"]["latents"]):
        for d in ([], [1]):
            if len(l["data"]) > len(d):
                c = copy.deepcopy(sc)
                c["model"]["latents"][i]["data"] = d
                yield c
    for ch in ([], [1], [2]):
        if len(sc["model"]["chain"]) > len(ch) or \
                (sc["model"]["chain"] and ch and
                 sc["model"]["chain"][0] > ch[0]):
            c = copy.deepcopy(sc)
            c["model"]["chain"] = ch
            yield c


def build_sampler(cfg, lr_t, n_t):
    alg = cfg["alg"]
    if alg == "SGLD":
        return zs.SGLD(lr_t)
    if alg == "PSGLD":
        if cfg["default_hps"]:
            return zs.PSGLD(lr_t)
        return zs.PSGLD(lr_t, preconditioner="rms", preconditioner_hparams=(
            zs.PSGLD.RMSPreconditioner.HParams(
                decay=cfg["decay"], epsilon=cfg["epsilon"])))
    if cfg.get("omit"):
        return getattr(zs, alg)(lr_t)
    if cfg.get("hp") == "tensor":
        cfg = dict((k, tf.constant(v, tf.float32)
                    if k in ("friction", "beta", "a", "tune_rate") else v)
                   for k, v in cfg.items())
        if isinstance(n_t, int):
            n_t = tf.constant(n_t)
    if alg == "SGHMC":
        return zs.SGHMC(lr_t, friction=cfg["friction"],
                        variance_estimate=cfg["beta"], n_iter_resample_v=n_t,
                        second_order=cfg["second_order"])
    return zs.SGNHT(lr_t, variance_extra=cfg["a"], tune_rate=cfg["tune_rate"],
                    n_iter_resample_v=n_t, second_order=cfg["second_order"],
                    use_vector_alpha=cfg["vec"])


class World(object):
    """The built graph for one scenario."""

    def __init__(self, sc, ctx, hook=None, logjoint=None, graph_seed=None,
                 graph=None):
        self.sc, self.ctx = sc, ctx
        cfg = sc["cfg"]
        self.cfg = cfg
        self.m = models.Model(sc["model"])
        self.g = tf.Graph() if graph is None else graph
        with self.g.as_default():
            if graph_seed is not None:
                tf.set_random_seed(graph_seed)
            self.lat = self.m.variables()
            self.x_ph = tf.placeholder(tf.float32, np.shape(self.m.x_value(0.)),
                                       name="x_feed")
            self.lr_ph = tf.placeholder_with_default(
                np.float32(cfg["lr"]), [], name="lr_feed")
            self.n_ph = None
            n_t = cfg.get("n")
            if cfg.get("n_mode") == "fed":
                self.n_ph = tf.placeholder_with_default(
                    np.int32(n_t), [], name="n_feed")
                n_t = self.n_ph
            lr_t = self.lr_ph if cfg["lr_mode"] == "fed" else cfg["lr"]
            self.x_t = self.x_ph if sc["model"]["xfeed"] else tf.constant(
                self.m.x_value(sc["model"]["x"]), tf.float32)

            def build():
                s = build_sampler(cfg, lr_t, n_t)
                self.sampler = s
                lj = logjoint(self.m) if logjoint is not None else \
                    self.m.tf_logjoint(hook)
                return s.sample(lj, {"x": self.x_t}, self.lat)
            self.op, self.info = ctx.lib(build)
            self.init = tf.global_variables_initializer()
            self.saver_vars = tf.global_variables()

    def session(self, label="main", seed=None):
        return SimSession(self.g, self.sc["seed"] if seed is None else seed,
                          self.ctx.sched(label))

    def feed(self, it):
        fd = {}
        if self.sc["model"]["xfeed"]:
            fd[self.x_ph] = self.m.x_value(it["x"])
        if self.cfg["lr_mode"] == "fed":
            fd[self.lr_ph] = self.lr(it)
        if self.n_ph is not None:
            fd[self.n_ph] = it["n"]
        return fd

    def x(self, it):
        return self.m.x_value(it["x"] if self.sc["model"]["xfeed"]
                              else self.sc["model"]["x"])

    def lr(self, it):
        m = it["lr_mul"] if self.cfg["lr_mode"] == "fed" else 1.0
        return float(np.float32(self.cfg["lr"] * m))

    def q(self, s):
        return models.f64({n: s.get(v) for n, v in self.lat.items()})

    def fetches(self, it):
        f = {"op": self.op}
        if it["fetch"] == "q":
            f["q"] = self.info.q
        elif it["fetch"] == "all":
            f["q"] = self.info.q
            if self.cfg["alg"] in ("SGHMC", "SGNHT"):
                f["mean_k"] = self.info.mean_k
            if self.cfg["alg"] == "SGNHT":
                f["alpha"] = self.info.alpha
        return f

    def ref(self, s):
        ref = SGRef(self.m, self.cfg)
        ref.init_pool = Pool(s.last.draws)
        ref.init_lr = float(np.float32(self.cfg["lr"]))
        return ref


def check_info(w, ref, out, qn, kind):
    cfg = w.cfg
    for n in w.m.names:
        if "q" in out:
            if not np.array_equal(np.asarray(out["q"][n], np.float64), qn[n]):
                raise Violation("info-q", "reported q of %r is not the value "
                                "left in the latent variable" % n)
        if "mean_k" in out:
            want = ref.mk[n]
            got = np.asarray(out["mean_k"][n], np.float64)
            if got.shape != np.shape(want) or not np.allclose(
                    got, want, rtol=2e-3, atol=2e-6):
                raise Violation("info-mean_k", "reported mean_k of %r is %s, "
                                "the momentum this iteration left has %s"
                                % (n, got, want))
        if "alpha" in out:
            want = ref.alpha[n]
            got = np.asarray(out["alpha"][n], np.float64)
            if got.shape != np.shape(want) or not np.allclose(
                    got, want, rtol=1e-3, atol=1e-5):
                raise Violation("info-alpha", "reported alpha of %r is %s, "
                                "the recurrence gives %s" % (n, got, want))
            ref.alpha[n] = got


def blown(ref, q, qn, i):
    """Has the chain left the region where float32 is worth judging?  A
    moderate state that becomes non-finite in one iteration is a violation."""
    def top(d):
        return max([np.abs(v).max() for v in d.values()]) if d else 0.
    if not all(np.isfinite(v).all() for v in qn.values()):
        if max(top(q), top(ref.v), top(ref.alpha)) <= 20:
            raise Violation("non-finite", "iteration %d: latents became "
                            "non-finite from a moderate state (largest "
                            "magnitude %.3g)" % (i, top(q)), iteration=i)
        return True
    return top(qn) > 50


def drive(sc, ctx, schedule_check=False):
    w = World(sc, ctx)
    s = w.session()
    ctx.lib(s.run, w.init, {w.lr_ph: w.cfg["lr"]})
    ref = w.ref(s)
    for i, it in enumerate(sc["iters"]):
        q = w.q(s)
        out = ctx.lib(s.run, w.fetches(it), w.feed(it))
        qn = w.q(s)
        if blown(ref, q, qn, i):
            ctx.probes["blown-up"] += 1
            return
        kind = ref.step(q, qn, w.x(it), w.lr(it), s.last.draws)
        ctx.probes["momentum-" + kind] += 1
        check_info(w, ref, out, qn, kind)
        ctx.note("q", i, [qn[n].tolist() for n in w.m.names])
        if schedule_check:
            n = it["n"] or 0
            want = "resampled" if n and i % n == 0 else "carried"
            if kind != want:
                raise Violation(
                    "resample-schedule", "%s with n_iter_resample_v=%s: "
                    "momentum was %s in iteration %d, should be %s"
                    % (w.cfg["alg"], it["n"], kind, i, want), iteration=i)
    ctx.probes["alg-" + w.cfg["alg"]] += 1
