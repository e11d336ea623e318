"""C07: a failed sampling iteration leaves the chains where they were."""
from sim import tfenv  # noqa: F401
import copy
import itertools
import random

import numpy as np
import tensorflow as tf

from sim import hmcscn, models, sgscn
from sim.core import LibError, Violation
from sim.executor import SimFault
from sim.hmcref import HMCRef

PASSIVE = {"Const", "Placeholder", "PlaceholderWithDefault", "NoOp",
           "VariableV2", "Variable"}


def gen(seed, tier):
    r = random.Random("c07-%d" % seed)
    if r.random() < 0.5:
        sc = sgscn.gen(seed, tier, iters=(3, 7),
                       n_choices=(None, 0, 1, 2, 2, 3, 3))
        sc["kind"] = "sg"
    else:
        sc = hmcscn.gen(seed, tier, r.choice(["C01", "C04"]))
        sc["iters"] = sc["iters"][:5]
        sc["kind"] = "hmc"
    for it in sc["iters"]:
        it["fault"] = None
        if r.random() < 0.6:
            it["fault"] = {"at": r.random(), "errors": r.choice(
                ["INTERNAL", "RESOURCE_EXHAUSTED"])}
    if sc["kind"] == "sg" and sc["cfg"].get("n_mode") == "fed":
        # an iteration that would have resampled fails, the next one carries
        # the momentum over
        for a, b in zip(sc["iters"], sc["iters"][1:]):
            if a["fault"] and r.random() < 0.5:
                b["n"] = 0
    if all(it["fault"] is None for it in sc["iters"]):
        sc["iters"][0]["fault"] = {"at": r.random(), "errors": "INTERNAL"}
    return sc


def shrink(sc):
    yield from (sgscn if sc["kind"] == "sg" else hmcscn).shrink(sc)
    for i, it in enumerate(sc["iters"]):
        if it["fault"]:
            c = copy.deepcopy(sc)
            c["iters"][i]["fault"] = None
            yield c


class ModelFault(object):
    """Fails the k-th executed operation of the model or of its gradient."""

    def __init__(self, marks, k, code):
        self.marks, self.k, self.code = marks, k, code
        self.n = 0
        self.hit = None

    def is_model(self, node):
        if node.type in PASSIVE or node.fetch_slot is not None:
            return False
        return node.name in self.marks or "gradients" in node.name

    def before_op(self, sess, node, frame, it, rec):
        if self.is_model(node):
            self.n += 1
            if self.n - 1 == self.k:
                self.hit = "%s@%s/%d" % (node.name, frame.path, it)
                if self.code == "INTERNAL":
                    return SimFault(node.name)
                return tf.errors.ResourceExhaustedError(
                    None, None, "simulated allocation failure in " + node.name)
        return None

    def after_op(self, sess, node, frame, it, rec, outs):
        return outs


def run(sc, ctx):
    marks = set()
    lj = models.recording(marks)
    if sc["kind"] == "sg":
        w = sgscn.World(sc, ctx, logjoint=lj)
    else:
        w = hmcscn.World(sc, ctx, logjoint=lj)
    s = w.session()
    init_feed = {w.lr_ph: w.cfg["lr"]} if sc["kind"] == "sg" else None
    ctx.lib(s.run, w.init, init_feed)
    adaptive = sc["kind"] == "hmc" and w.cfg["adapt_step"] != "none"
    if sc["kind"] == "sg":
        ref = w.ref(s)
    else:
        ref = HMCRef(w.m, w.cfg, {"momentum", "accept", "transition"})
    # size of one iteration, from a throw-away session
    probe = w.session("probe")
    ctx.lib(probe.run, w.init, init_feed)
    cnt = ModelFault(marks, -1, None)
    it0 = sc["iters"][0]
    fd0 = w.feed(it0) if sc["kind"] == "sg" else w.feed(it0, w.q(probe))
    ctx.lib(probe.run, w.fetches(it0), fd0, faults=cnt)
    total = max(cnt.n, 1)
    failed_before = 0
    aux_opts = None
    for i, it in enumerate(sc["iters"]):
        q = w.q(s)
        fd = w.feed(it) if sc["kind"] == "sg" else w.feed(it, q)
        fault = None
        if it["fault"]:
            fault = ModelFault(marks, int(it["fault"]["at"] * total),
                               it["fault"]["errors"])
        try:
            out = ctx.lib(s.run, w.fetches(it), fd, faults=fault)
            err = None
        except LibError as e:
            err = e
            if fault is None or fault.hit is None:
                raise
        qn = w.q(s)
        if fault is not None and fault.hit is not None:
            ctx.faults["model-op-" + it["fault"]["errors"]] += 1
            ctx.note("fault", i, fault.hit)
            if err is None or not isinstance(err.__cause__,
                                             tf.errors.OpError):
                raise Violation("swallowed", "iteration %d: the failure of "
                                "model operation %s did not reach the caller"
                                % (i, fault.hit), iteration=i)
            for n in w.m.names:
                if not np.array_equal(q[n], qn[n]):
                    raise Violation(
                        "latent-changed", "iteration %d failed in model "
                        "operation %s, but latent %r changed from %s to %s"
                        % (i, fault.hit, n, q[n].ravel()[:4],
                           qn[n].ravel()[:4]), iteration=i, latent=n)
            failed_before += 1
            if sc["kind"] == "sg" and w.cfg["alg"] == "PSGLD":
                # the accumulators of some latents may have moved on
                d = w.cfg["decay"]
                g = w.m.grad(q, w.x(it))
                base = aux_opts or [ref.aux]
                aux_opts = []
                for b in base:
                    for bits in itertools.product([0, 1],
                                                  repeat=len(w.m.names)):
                        aux_opts.append({
                            n: (d * b[n] + (1 - d) * g[n] ** 2) if f else b[n]
                            for n, f in zip(w.m.names, bits)})
                aux_opts = aux_opts[:64]
                if len(aux_opts) == 64:
                    return
            continue
        if err is None and fault is not None:
            ctx.probes["fault-point-not-reached"] += 1
        big = max(np.abs(v).max() for v in qn.values())
        if sc["kind"] != "sg" and not np.isfinite(big):
            raise Violation("non-finite", "iteration %d left a non-finite "
                            "value in a latent" % i, iteration=i)
        if sgscn.blown(ref, q, qn, i) if sc["kind"] == "sg" else big > 50:
            ctx.probes["blown-up"] += 1
            return
        if sc["kind"] == "sg":
            ctx.probes["iterations-after-fault"] += failed_before > 0
            if aux_opts is None:
                kind = ref.step(q, qn, w.x(it), w.lr(it), s.last.draws)
            else:
                for k, b in enumerate(aux_opts):
                    ref.aux = b
                    try:
                        kind = ref.step(q, qn, w.x(it), w.lr(it),
                                        s.last.draws)
                        break
                    except Violation:
                        if k == len(aux_opts) - 1:
                            raise
                aux_opts = None
            n = it.get("n") or 0
            if w.cfg["alg"] in ("SGHMC", "SGNHT"):
                want = "resampled" if n and (ref.t - 1) % n == 0 else "carried"
                if kind != want and failed_before:
                    raise Violation(
                        "schedule", "after %d failed iterations the momentum "
                        "was %s in completed iteration %d (n_iter_resample_v="
                        "%s), should be %s" % (failed_before, kind, ref.t - 1,
                                               it["n"], want), iteration=i)
            sgscn.check_info(w, ref, out, qn, kind)
        elif not adaptive:
            wat = w.watched(s)
            if any(v is None for v in wat["p"].values()):
                return
            bad, _ = w.bad(it)
            ref.judge(q, qn, w.x(it), it, s.last.draws, wat, bad)
            if ref.lost:
                ctx.probes["stopped:" + ref.lost_kind] += 1
                return
            ctx.probes["iterations-after-fault"] += failed_before > 0
        ctx.note("q", i, [qn[n].tolist() for n in w.m.names])
