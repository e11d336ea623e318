"""Scenario generation and driving for the HMC checks."""
from . import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from . import models
from .core import Violation, LibError
from .executor import SimSession, StepBudget
from .rng import mantissa_max
from .hmcref import HMCRef

FIELDS = ["samples", "acceptance_rate", "updated_step_size", "init_momentum",
          "orig_hamiltonian", "hamiltonian", "orig_log_prob", "log_prob"]
BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}


def gen(seed, tier, profile):
    r = random.Random("hmc-%s-%d" % (profile, seed))
    adapt = {"C01": 0.45, "C02": 0.5, "C03": 0.6, "C04": 1.0}[profile]
    cfg = {"step": r.choice([0.02, 0.05, 0.1, 0.2, 0.4]),
           "n_leap": r.choice([1, 1, 2, 3, 4]),
           "n_mode": r.choice(["const", "fed"]),
           "adapt_step": "none", "adapt_mass": "none",
           "target": r.choice([0.6, 0.8, 0.8, 0.9]),
           "gamma": r.choice([0.05, 0.1, 0.5]),
           "t0": r.choice([10, 100]), "kappa": r.choice([0.75, 0.6]),
           "collect": 0, "decay": r.choice([0.5, 0.9, 0.99])}
    if r.random() < adapt:
        cfg["adapt_step"] = r.choice(["true", "fed", "fed", "fed", "false"])
        if r.random() < 0.6:
            cfg["adapt_mass"] = r.choice(["true", "fed", "fed", "false"])
            cfg["collect"] = r.choice([0, 1, 2, 3, 4, 6])
    lo, hi = {"C01": (2, 6), "C02": (2, 5), "C03": (3, 7), "C04": (4, 12)}[
        profile]
    # hyperparameters left at their documented defaults; long histories
    r2 = random.Random("hmc-omit-%s-%d" % (profile, seed))
    cfg["omit"] = r2.random() < 0.15
    if cfg["omit"]:
        cfg.update(target=0.8, gamma=0.05, t0=100, kappa=0.75, decay=0.99)
        if cfg["adapt_mass"] != "none":
            cfg["collect"] = 10
        if r2.random() < 0.3:
            cfg.update(step=1.0, n_leap=10, n_mode="const", omit_traj=True)
    # hyperparameters given as tensors instead of numbers
    cfg["hp"] = r2.choice(["number"] * 4 + ["tensor"])
    # the log joint's sizes are known only when it is run
    cfg["dyn"] = random.Random("hmc-dyn-%s-%d" % (profile, seed)).random() < .2
    long = profile in ("C01", "C04") and r2.random() < (
        0.5 if cfg["omit"] and cfg["collect"] else 0.04)
    chains = None
    if profile == "C03":
        chains = [[], [1], [2], [3], [4], [2, 2]]
    m = models.gen_model(r, chains=chains)
    iters = []
    smode = r.choice(["random", "on-off", "off-on", "on", "off", "toggle"])
    mmode = r.choice(["random", "on-off", "off-on", "on", "off", "toggle"])
    k = r.randrange(lo, hi)
    if long:
        k = r2.choice([12, 14, 24])
    cut1, cut2 = r.randrange(k + 1), r.randrange(k + 1)

    def flag(mode, i, cut, fixed):
        if fixed in ("true", "false", "none"):
            return fixed == "true"
        return {"random": r.random() < 0.5, "on-off": i < cut,
                "off-on": i >= cut, "on": True, "off": False,
                "toggle": i % 2 == 0}[mode]
    nch = int(np.prod(m["chain"])) if m["chain"] else 1
    for i in range(k):
        nf = r.choice([0, 1, 2, len(FIELDS)])
        it = {"x": r.randrange(-32, 33) / 16.0,
              "adapt_step": flag(smode, i, cut1, cfg["adapt_step"]),
              "adapt_mass": flag(mmode, i, cut2, cfg["adapt_mass"]),
              "n_leap": r.choice([1, 2, 3]) if cfg["n_mode"] == "fed"
              else cfg["n_leap"],
              "fetch": sorted(r.sample(FIELDS, nf)), "faults": []}
        if profile == "C02":
            it["fetch"] = sorted(r.sample(FIELDS, r.choice([1, 2, 4, 8, 8])))
        if profile == "C03" and r.random() < 0.75:
            for c in r.sample(range(nch), r.randrange(1, nch + 1)):
                it["faults"].append({
                    "chain": c, "where": r.choice(["moved"] * 4 + ["always"]),
                    "how": r.choice(["add", "add", "mul"]),
                    "value": r.choice(["nan", "inf", "-inf"])})
        iters.append(it)
    sc = {"seed": seed, "profile": profile, "model": m, "cfg": cfg,
          "iters": iters, "sched": {"kind": "seed", "seed": r.getrandbits(40)}}
    # accept/reject draws at the ends of the generator's range
    sc["uext"] = r.choice([0, 0, 0.3, 0.6]) if profile == "C03" else \
        r.choice([0, 0, 0, 0.3])
    if profile in ("C01", "C02") and not cfg.get("omit_traj"):
        # long trajectories
        r4 = random.Random("hmc-far-%d" % seed)
        if r4.random() < 0.04:
            cfg["step"] = min(cfg["step"], 0.05)
            cfg["n_leap"] = r4.choice([11, 17, 30])
            for it in iters:
                it["n_leap"] = cfg["n_leap"] if cfg["n_mode"] == "const" \
                    else r4.choice([1, 12, 30])
    if profile == "C03":
        sc["recover"] = r.choice([0, 0, 12])
        if r.random() < 0.35:
            # every chain rejected until after the mass takes effect
            cfg["adapt_step"] = "fed"
            cfg["adapt_mass"] = r.choice(["true", "fed"])
            cfg["collect"] = r.choice([1, 2, 3])
            cfg["omit"] = False
            sc["recover"] = 12
            mf = r.random() < 0.5
            for it in iters:
                it["adapt_step"] = True
                it["adapt_mass"] = cfg["adapt_mass"] == "true" or mf
                it["faults"] = [{"chain": c, "where": "moved", "how": "add",
                                 "value": "nan"} for c in range(nch)]
        r3 = random.Random("hmc-streak-%d" % seed)
        if r3.random() < 0.012:
            # rejected until the step size leaves the float range
            cfg.update(adapt_step="true", adapt_mass="none", collect=0,
                       omit=False, target=0.8, gamma=0.05, t0=10, kappa=0.75,
                       n_leap=1, n_mode="const")
            cfg.pop("omit_traj", None)
            it = dict(iters[0], adapt_step=True, adapt_mass=False, n_leap=1,
                      fetch=[], faults=[
                          {"chain": c, "where": "always", "how": "add",
                           "value": "nan"} for c in range(nch)])
            sc["iters"] = [dict(it) for _ in range(r3.randrange(40, 60))]
            sc["recover"] = 75
            sc["uext"] = 0
            sc["streak"] = True
    return sc


def shrink(sc):
    if sc.get("streak"):
        return
    if sc.get("uext"):
        c = copy.deepcopy(sc)
        c["uext"] = 0
        yield c
    if sc["cfg"].get("dyn"):
        c = copy.deepcopy(sc)
        c["cfg"]["dyn"] = False
        yield c
    if len(sc["iters"]) > 1:
        for sl in (slice(0, -1), slice(1, None)):
            c = copy.deepcopy(sc)
            c["iters"] = c["iters"][sl]
            yield c
    for i, it in enumerate(sc["iters"]):
        if it["faults"]:
            c = copy.deepcopy(sc)
            c["iters"][i]["faults"] = []
            yield c
            for j in range(len(it["faults"])):
                if len(it["faults"]) > 1:
                    c = copy.deepcopy(sc)
                    del c["iters"][i]["faults"][j]
                    yield c
        if it["fetch"]:
            c = copy.deepcopy(sc)
            c["iters"][i]["fetch"] = []
            yield c
    if len(sc["model"]["latents"]) > 1:
        for i in range(len(sc["model"]["latents"])):
            c = copy.deepcopy(sc)
            del c["model"]["latents"][i]
            yield c
    for i, l in enumerate(sc["model"]["latents"]):
        if l["data"]:
            c = copy.deepcopy(sc)
            c["model"]["latents"][i]["data"] = []
            yield c
    if not any(it["faults"] for it in sc["iters"]):
        for ch in ([], [1], [2]):
            if len(sc["model"]["chain"]) > len(ch):
                c = copy.deepcopy(sc)
                c["model"]["chain"] = ch
                yield c


class World(object):
    def __init__(self, sc, ctx, faulty=False, logjoint=None, graph_seed=None,
                 graph=None):
        self.sc, self.ctx = sc, ctx
        self.cfg = cfg = sc["cfg"]
        self.m = m = models.Model(sc["model"])
        self.faulty = faulty
        self.g = tf.Graph() if graph is None else graph
        with self.g.as_default():
            if graph_seed is not None:
                tf.set_random_seed(graph_seed)
            self.lat = m.variables()
            self.x_ph = tf.placeholder(tf.float32, np.shape(m.x_value(0.)),
                                       name="x_feed")
            self.x_t = self.x_ph if sc["model"]["xfeed"] else tf.constant(
                m.x_value(sc["model"]["x"]), tf.float32)
            self.as_ph = tf.placeholder_with_default(False, [], name="as_feed")
            self.am_ph = tf.placeholder_with_default(False, [], name="am_feed")
            self.nl_ph = tf.placeholder_with_default(
                np.int32(cfg["n_leap"]), [], name="nl_feed")
            sel = {"none": None, "true": True, "false": False}
            a_s = self.as_ph if cfg["adapt_step"] == "fed" else \
                sel[cfg["adapt_step"]]
            a_m = self.am_ph if cfg["adapt_mass"] == "fed" else \
                sel[cfg["adapt_mass"]]
            hook = None
            if faulty:
                ch = m.chain
                self.q0 = {n: tf.placeholder(tf.float32, m.shape[n],
                                             name="q0_" + n) for n in m.names}
                self.f_add = tf.placeholder(tf.float32, ch, name="f_add")
                self.f_mul = tf.placeholder(tf.float32, ch, name="f_mul")
                self.f_moved = tf.placeholder(tf.bool, ch, name="f_moved")
                self.f_always = tf.placeholder(tf.bool, ch, name="f_always")
                hook = self._fault_hook

            def build():
                kw = {}
                omit = cfg.get("omit")
                if a_s is not None:
                    kw.update(adapt_step_size=a_s)
                    if not omit:
                        kw.update(target_acceptance_rate=cfg["target"],
                                  gamma=cfg["gamma"], t0=cfg["t0"],
                                  kappa=cfg["kappa"])
                if a_m is not None:
                    kw.update(adapt_mass=a_m)
                    if not omit:
                        kw.update(mass_collect_iters=cfg["collect"],
                                  mass_decay=cfg["decay"])
                if not cfg.get("omit_traj"):
                    kw.update(step_size=cfg["step"],
                              n_leapfrogs=self.nl_ph if cfg["n_mode"] == "fed"
                              else cfg["n_leap"])
                if cfg.get("hp") == "tensor":
                    for k in kw:
                        if isinstance(kw[k], (int, float)) and \
                                not isinstance(kw[k], bool):
                            kw[k] = tf.constant(
                                kw[k], tf.int32 if k in (
                                    "n_leapfrogs", "mass_collect_iters")
                                else tf.float32)
                h = zs.HMC(**kw)
                self.sampler = h
                lj = logjoint(m) if logjoint is not None else \
                    m.tf_logjoint(hook)
                if cfg.get("dyn") and m.chain and logjoint is None:
                    dims = tf.placeholder_with_default(
                        np.int32(m.chain), [len(m.chain)], name="chain_dims")
                    inner = lj

                    def lj(obs):
                        v = inner(obs) if callable(inner) else \
                            inner.observe(**obs).log_joint()
                        return tf.reshape(v, dims)
                return h.sample(lj, {"x": self.x_t}, self.lat)
            self.op, self.info = ctx.lib(build)
            self.init = tf.global_variables_initializer()
        self.watch = [self.info.acceptance_rate, self.info.updated_step_size] \
            + [self.info.init_momentum[n] for n in m.names]
        self.watch = [w if isinstance(w, tf.Tensor) else w.value()
                      for w in self.watch]

    def _fault_hook(self, o, lp):
        m = self.m
        moved = None
        for n in m.names:
            d = tf.not_equal(tf.convert_to_tensor(o[n]), self.q0[n])
            rank = len(m.lat[n]["data"])
            if rank:
                d = tf.reduce_any(d, list(range(len(m.chain),
                                                len(m.chain) + rank)))
            moved = d if moved is None else tf.logical_or(moved, d)
        hit = tf.logical_or(self.f_always, tf.logical_and(self.f_moved, moved))
        return tf.where(hit, lp * self.f_mul + self.f_add, lp)

    def session(self, label="main", seed=None):
        s = SimSession(self.g, self.sc["seed"] if seed is None else seed,
                       self.ctx.sched(label))
        s.watch_tensors(self.watch)
        if self.sc.get("uext"):
            s.rng.extreme = self._extreme
        return s

    def _extreme(self, node, v, g):
        if node.type != "RandomUniform":
            return None
        v = np.array(v)
        r = np.random.default_rng(int(g.integers(1 << 30)))
        mask = r.random(v.shape) < self.sc["uext"]
        self.ctx.faults["uniform-end-point"] += int(mask.sum())
        ends = np.asarray([0.0, mantissa_max(v.dtype)])[
            r.integers(0, 2, size=v.shape)]
        return np.where(mask, ends, v).astype(v.dtype)

    def feed(self, it, q):
        fd = {}
        if self.sc["model"]["xfeed"]:
            fd[self.x_ph] = self.m.x_value(it["x"])
        if self.cfg["adapt_step"] == "fed":
            fd[self.as_ph] = it["adapt_step"]
        if self.cfg["adapt_mass"] == "fed":
            fd[self.am_ph] = it["adapt_mass"]
        if self.cfg["n_mode"] == "fed":
            fd[self.nl_ph] = it["n_leap"]
        if self.faulty:
            ch = self.m.chain
            add, mul = np.zeros(ch), np.ones(ch)
            mv, al = np.zeros(ch, bool), np.zeros(ch, bool)
            for f in it["faults"]:
                c = np.unravel_index(f["chain"], ch) if ch else ()
                (add if f["how"] == "add" else mul)[c] = BAD[f["value"]]
                (mv if f["where"] == "moved" else al)[c] = True
                self.ctx.faults["model-%s-%s-%s" % (
                    f["how"], f["value"], f["where"])] += 1
            fd.update({self.f_add: add, self.f_mul: mul, self.f_moved: mv,
                       self.f_always: al})
            for n in self.m.names:
                fd[self.q0[n]] = q[n]
        return fd

    def bad(self, it):
        b = np.zeros(self.m.chain, bool)
        al = np.zeros(self.m.chain, bool)
        for f in it["faults"]:
            c = np.unravel_index(f["chain"], self.m.chain) if self.m.chain \
                else ()
            b[c] = True
            if f["where"] == "always":
                al[c] = True
        return b, al

    def x(self, it):
        return self.m.x_value(it["x"] if self.sc["model"]["xfeed"]
                              else self.sc["model"]["x"])

    def q(self, s):
        return models.f64({n: s.get(v) for n, v in self.lat.items()})

    def fetches(self, it):
        f = {"op": self.op}
        for k in it["fetch"]:
            f[k] = getattr(self.info, k)
        return f

    def watched(self, s):
        w = s.last.watched
        g = [w.get(t.name) for t in self.watch]
        step = g[1]
        return {"acc": g[0], "step": step,
                "p": {n: None if v is None else np.asarray(v, np.float64)
                      for n, v in zip(self.m.names, g[2:])}}


def near(a, b, tol):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= tol) | (a == b) |
                           (np.isnan(a) & np.isnan(b))))


def check_info(ref, w, out, q, qn, pr, wat, bad, t):
    """C02: the fetched statistics are those of this iteration."""
    m = w.m

    def bad_field(name, got, want):
        raise Violation("info-" + name, "iteration %d: fetched %s is %s, this "
                        "iteration has %s" % (t, name, got, want),
                        iteration=t, field=name)
    ch = m.chain
    for n in m.names:
        if "samples" in out:
            got = np.asarray(out["samples"][n], np.float64)
            if got.shape != m.shape[n] or not np.array_equal(got, qn[n]):
                bad_field("samples", got, qn[n])
        if "init_momentum" in out:
            got = np.asarray(out["init_momentum"][n], np.float64)
            if not np.array_equal(got, wat["p"][n]):
                bad_field("init_momentum", got, wat["p"][n])
    if pr is None:
        return
    v = pr["valid"]
    acc = np.ones(ch, bool)
    for k in m.names:
        acc &= ~(qn[k] == q[k]).reshape(ch + (-1,)).all(-1)

    def cmp(name, want, tol, mask):
        if name not in out:
            return
        got = np.asarray(out[name], np.float64)
        if got.shape != ch:
            bad_field(name, "of shape %s" % (got.shape,), "shape %s" % (ch,))
        with np.errstate(all="ignore"):
            wrong = mask & ~((np.abs(got - want) <= tol))
        if wrong.any():
            bad_field(name, got, want)
    cmp("orig_hamiltonian", pr["H0"], pr["h0tol"], v)
    cmp("hamiltonian", pr["H1"], pr["h1tol"], v)
    cmp("orig_log_prob", pr["lp0"], pr["l0tol"], v)
    cmp("log_prob", np.where(acc, pr["lp1"], pr["lp0"]),
        np.where(acc, pr["l1tol"], pr["l0tol"]), v)
    if "acceptance_rate" in out:
        e = ref.acc_matches(out["acceptance_rate"], pr)
        if e is not None:
            bad_field("acceptance_rate", out["acceptance_rate"], e[1])
        if "hamiltonian" in out and "orig_hamiltonian" in out:
            with np.errstate(all="ignore"):
                d = np.asarray(out["orig_hamiltonian"], np.float64) - \
                    np.asarray(out["hamiltonian"], np.float64)
                want = np.exp(np.minimum(d, 0))
                ok = np.abs(want - out["acceptance_rate"]) <= 1e-4 + 8e-6 * \
                    np.abs(np.asarray(out["hamiltonian"], np.float64))
            if (v & ~ok).any():
                bad_field("acceptance_rate", out["acceptance_rate"], want)


def drive(sc, ctx, strict, info=False, faulty=False, on_iter=None):
    w = World(sc, ctx, faulty=faulty)
    s = w.session()
    ctx.lib(s.run, w.init)
    ref = HMCRef(w.m, w.cfg, set(strict))
    nch = ref.nch
    last_step = None
    for i, it in enumerate(sc["iters"]):
        q = w.q(s)
        bad, always = w.bad(it)
        expect_error = bool(always.any()) and any(
            f in ("log_prob", "orig_log_prob") for f in it["fetch"])
        err = None
        try:
            out = ctx.lib(s.run, w.fetches(it), w.feed(it, q))
        except StepBudget:
            raise Violation("no-progress", "iteration %d did not finish within "
                            "%d operation steps" % (i + 1, s.max_steps))
        except LibError as e:
            err = e
            if not (expect_error and isinstance(
                    e.__cause__, tf.errors.InvalidArgumentError)):
                raise
        if expect_error and err is None:
            if "check-numerics" in strict:
                raise Violation("check-numerics", "iteration %d: the starting "
                                "log joint is not finite and its statistics "
                                "were fetched without an error" % (i + 1))
        if err is not None:
            ctx.probes["check-numerics-raised"] += 1
            return
        qn = w.q(s)
        wat = w.watched(s)
        ctx.note("q", i, [qn[n].tolist() for n in w.m.names])
        for n in w.m.names:
            if not np.isfinite(qn[n]).all():
                raise Violation("non-finite", "iteration %d: latent %r holds a "
                                "non-finite value" % (i + 1, n))
        if any(v is None for v in wat["p"].values()):
            ctx.probes["no-momentum-seen"] += 1
            return
        pr = ref.judge(q, qn, w.x(it), it, s.last.draws, wat, bad)
        if ref.lost:
            ctx.probes["stopped:" + ref.lost_kind] += 1
            return
        if pr is None:
            ctx.probes["iterations-adopted"] += 1
        else:
            ctx.probes["iterations-judged"] += 1
            ctx.probes["chains-judged"] += int(np.sum(pr["ok"]))
        moved = np.ones(w.m.chain, bool)
        for k in w.m.names:
            moved &= ~(qn[k] == q[k]).reshape(w.m.chain + (-1,)).all(-1)
        ctx.probes["accepted"] += int(moved.sum())
        ctx.probes["rejected"] += int((~moved).sum())
        if w.cfg["adapt_mass"] != "none" and ref.t >= w.cfg["collect"]:
            ctx.probes["adapted-mass-iterations"] += 1
        if info:
            check_info(ref, w, out, q, qn, pr, wat, bad, i + 1)
            if "updated_step_size" in out:
                got = float(out["updated_step_size"])
                if got != float(wat["step"]):
                    raise Violation("info-updated_step_size", "fetched step "
                                    "size %r, the run computed %r"
                                    % (got, wat["step"]))
                last_step = got
                now = s.get(w.sampler.step_size) if hasattr(
                    w.sampler, "step_size") and hasattr(
                        w.sampler.step_size, "op") else None
                if now is not None and float(now) != got:
                    raise Violation("info-updated_step_size", "fetched step "
                                    "size %r, the step size left is %r"
                                    % (got, float(now)))
        if on_iter is not None:
            on_iter(w, s, ref, it, q, qn, wat, pr, moved)
    return w, s, ref
