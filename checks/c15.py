"""C15: objectives and gradient estimators match their definitions."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf

from sim.core import Violation
from sim.viscn import VIWorld, gen_vi

KINDS = ["sgvb", "reinforce", "vimco", "klpq", "iw-sgvb"]


def gen(seed, tier):
    r = random.Random("c15-%d" % seed)
    kind = r.choice(KINDS)
    path = kind in ("sgvb", "iw-sgvb")
    fams = ("normal", "normal", "laplace") if path else (
        "normal", "normal", "bernoulli", "bernoulli", "laplace", "gamma",
        "beta", "invgamma")
    spec = gen_vi(r, fams, reparam=path,
                  axes="int" if kind == "vimco" else "any")
    if kind in ("vimco", "iw-sgvb"):
        dims = ([] if spec["K"] is None else [spec["K"]]) + spec["batch"]
        if spec["axis"] is None or (kind == "vimco" and
                                    dims[spec["axis"]] < 2):
            spec["K"], spec["axis"] = r.choice([2, 3]), 0
    if len(spec["latents"]) > 1 and r.random() < 0.08:
        spec["missing"], spec["form"] = True, "bn"
    elif kind in ("vimco", "klpq", "iw-sgvb") and r.random() < 0.25:
        spec["hard"] = r.choice([-1.0, -0.3, 0.2, 0.3, 1.1])
    r2 = random.Random("c15-more-%d" % seed)
    spec["aux"] = r2.random() < 0.25
    spec["reused"] = r2.random() < 0.25
    if kind != "reinforce" and r2.random() < 0.2:
        spec["offset"] = r2.choice([-2, -3, -2, 2, 3])
    its = []
    for _ in range(r.randrange(2, 5)):
        its.append({"x": r.randrange(-16, 17) / 8.0,
                    "fetch": r.choice(["cost", "grads", "all", "all", "obj"]),
                    "step": r.random() < 0.5})
    return {"seed": seed, "vi": spec, "kind": kind, "iters": its,
            "twice": r.random() < 0.25,
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    if len(sc["iters"]) > 1:
        for sl in (slice(0, -1), slice(1, None)):
            c = copy.deepcopy(sc)
            c["iters"] = c["iters"][sl]
            yield c
    if len(sc["vi"]["latents"]) > 1:
        for i in range(len(sc["vi"]["latents"])):
            c = copy.deepcopy(sc)
            del c["vi"]["latents"][i]
            yield c
    for k in ("aux", "reused", "offset"):
        if sc["vi"].get(k):
            c = copy.deepcopy(sc)
            c["vi"][k] = 0
            yield c
    for k in ("batch", "data"):
        if sc["vi"][k]:
            c = copy.deepcopy(sc)
            c["vi"][k] = []
            yield c


def close(got, want, scale):
    return np.allclose(got, want, rtol=5e-4, atol=3e-5 * (1 + scale))


def missing(w, kind, ctx):
    """One latent of the model has no posterior: every way of using the
    objective is refused, as often as it is tried."""
    ok = {"sgvb": "elbo", "reinforce": "elbo", "vimco": "iw",
          "iw-sgvb": "iw", "klpq": "klpq"}[kind]
    uses = {"sgvb": [lambda o: o.sgvb(), lambda o: o.tensor, lambda o: o.bn],
            "reinforce": [lambda o: o.reinforce(variance_reduction=False),
                          lambda o: o.bn, tf.convert_to_tensor],
            "vimco": [lambda o: o.vimco(), tf.convert_to_tensor,
                      lambda o: o.bn],
            "iw-sgvb": [lambda o: w.is_ll(), lambda o: o.sgvb(),
                        lambda o: o.tensor],
            "klpq": [lambda o: o.importance(), lambda o: o.bn]}[kind]
    r = random.Random("missing-%d" % w.seed)
    o = w.objective(ok)
    for n in range(4):
        k = r.randrange(len(uses))
        if r.random() < 0.3:
            o = w.objective(ok)
        try:
            uses[k](o)
        except ValueError:
            ctx.faults["missing-posterior"] += 1
            continue
        raise Violation("missing-posterior", "%s: latent %r of the model has "
                        "no posterior and no observation; try %d (use %d of "
                        "the objective) was accepted"
                        % (kind, w.names[-1], n, k))


def run(sc, ctx):
    w = VIWorld(sc["vi"], ctx, sc["seed"])
    kind = sc["kind"]
    with w.g.as_default():
        def build():
            ok = {"sgvb": "elbo", "reinforce": "elbo", "vimco": "iw",
                  "iw-sgvb": "iw", "klpq": "klpq"}[kind]
            o = w.objective(ok)
            if kind in ("sgvb", "iw-sgvb"):
                c = o.sgvb()
            elif kind == "reinforce":
                c = o.reinforce(variance_reduction=False)
            elif kind == "vimco":
                c = o.vimco()
            else:
                c = o.importance()
            if sc["twice"]:
                # the estimator asked for once more, from the same objective
                c = {"sgvb": lambda: o.sgvb(), "iw-sgvb": lambda: o.sgvb(),
                     "reinforce": lambda: o.reinforce(
                         variance_reduction=False),
                     "vimco": lambda: o.vimco(),
                     "klpq": lambda: o.rws()}[kind]()
            obj = None if kind == "klpq" else o.tensor
            isl = w.is_ll() if ok == "iw" else None
            ps = list(w.vparams) + ([] if kind == "klpq" else list(w.pparams))
            g = tf.gradients(c, [w.var(p) for p in ps])
            return o, c, obj, isl, ps, g
        if sc["vi"].get("missing"):
            return missing(w, kind, ctx)
        o, cost, obj, isl, ps, grads = ctx.lib(build)
        for p, g in zip(ps, grads):
            if g is None:
                raise Violation("no-gradient", "%s: parameter %s receives no "
                                "gradient from the surrogate cost" % (kind, p))
        init = tf.global_variables_initializer()
        upd = [w.var(p).assign_sub(0.05 * tf.clip_by_value(g, -2., 2.))
               for p, g in zip(ps, grads)]
    s = w.session()
    ctx.lib(s.run, init)
    for i, it in enumerate(sc["iters"]):
        P = w.params(s)
        f = {"z": w.zt}
        want_cost = it["fetch"] in ("cost", "all")
        want_grad = it["fetch"] in ("grads", "all")
        if want_cost:
            f["cost"] = cost
        if want_grad:
            f["grads"] = grads
        if obj is not None and it["fetch"] in ("obj", "all"):
            f["obj"] = o
        if isl is not None and it["fetch"] in ("obj", "all"):
            f["is"] = isl
        xv = w.x(it["x"])
        out = ctx.lib(s.run, f, w.feed(xv))
        z = {n: np.asarray(v, np.float64) for n, v in out["z"].items()}
        ctx.note("z", i, [z[n].tolist() for n in w.names])
        shape = (() if w.K is None else (w.K,)) + w.batch + w.data
        for n in w.names:
            if z[n].shape != shape:
                raise Violation("sample-shape", "latent %r has shape %s, "
                                "expected %s" % (n, z[n].shape, shape))
        ctx.probes["estimator-" + kind] += 1

        def check(name, got, want, sc_):
            got, want = np.asarray(got, np.float64), np.asarray(want)
            ok = got.shape == want.shape
            if ok and w.hard is not None:
                # defined values only: no normalisation by zero, no infinite
                # learning signal
                d = ~np.isnan(want) if name in ("objective",
                                                "is_loglikelihood") \
                    else np.isfinite(want)
                ctx.probes["undefined-entries"] += int(np.sum(~d))
                ctx.probes["minus-inf-entries"] += int(np.sum(
                    want[d] == -np.inf))
                got, want = got[d], want[d]
            if not ok or not close(got, want, sc_):
                raise Violation(
                    "value-" + name, "iteration %d: %s of %s is %s, its "
                    "definition on the samples of this run gives %s"
                    % (i, name, kind, got, want), iteration=i, what=name)
        lp, lq = w.logp(z, P, xv), w.logq(z, P)
        zero = np.isneginf(lp)
        lw = np.abs(np.where(zero, 0.0, lp)) + np.abs(lq)
        scale = float(np.max(lw))
        if w.margin(z) < 0.05:
            ctx.probes["at-the-edge-of-support"] += 1
            continue
        if np.any(zero):
            ctx.faults["zero-density-draw"] += 1
        if "obj" in out:
            ok = "elbo" if kind in ("sgvb", "reinforce") else "iw"
            check("objective", out["obj"], w.surrogate(ok, z, P, xv)(P), scale)
        if "is" in out:
            check("is_loglikelihood", out["is"],
                  w.surrogate("is", z, P, xv)(P), scale)
        sur = w.surrogate(kind, z, P, xv)
        big = scale if kind != "reinforce" else scale ** 2
        if "cost" in out:
            check("cost", out["cost"], sur(P), big)
        if "grads" in out and np.all(np.isfinite(sur(P))):
            for p, g in zip(ps, out["grads"]):
                want = w.grad(sur, P, p)
                check("gradient", g, want, np.max(np.abs(want)) + 0.1 * big)
        if it["step"]:
            ctx.lib(s.run, upd, w.feed(xv))
