"""C13: every random draw yields a finite sample inside the support."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf

from sim.core import Violation
from sim.dists import FAMS, draw, tf_params
from sim.executor import SimSession
from sim.rng import mantissa_max

# families whose support is open and whose samples may round to its end points
EDGE = ("Beta", "Dirichlet", "BinConcrete", "Concrete")


def gen(seed, tier):
    r = random.Random("c13-%d" % seed)
    name = sorted(FAMS)[seed % len(FAMS)]
    f = FAMS[name]
    batch = r.choice([[], [1], [2], [3], [2, 3]])
    sa, sb = list(batch), list(batch)
    if f.two and batch and r.random() < 0.5:
        if r.random() < 0.5:
            sa = []
        else:
            sb = [1] * len(batch)
    dts = [d for d in ("float32", "float32", "float32", "float64", "float16")
           if d in f.dtypes]
    return {"seed": seed, "fam": name, "n": r.choice([None, 1, 4, 16]),
            "batch": batch, "sa": sa, "sb": sb, "dtype": r.choice(dts),
            "vdtype": r.choice([None] + [d for d in f.vdtypes
                                         if d not in ("float16", "int16")])
            if f.vdtypes else None,
            "wide": r.random() < 0.7, "rate": r.choice([0.05, 0.3, 0.9, 1.0]),
            "pseed": r.getrandbits(30), "runs": 3,
            "fed": {}, "via": r.choice(["direct", "direct", "bn", "old"]),
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    for k, v in (("via", "direct"), ("runs", 1), ("n", None), ("wide", False), ("vdtype", None),
                 ("dtype", "float32")):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    if sc["batch"]:
        c = copy.deepcopy(sc)
        c["batch"] = c["sa"] = c["sb"] = []
        yield c


def widen(p, g, dtype):
    """finite valid parameters far from 1"""
    lim = 4.0 if dtype == "float16" else 20.0

    def logu(shape, lo, hi):
        return np.exp(g.uniform(np.log(lo), np.log(hi), size=shape))
    out = {}
    half = dtype == "float16"
    for k, v in p.items():
        if isinstance(v, int):
            out[k] = v
        elif k in ("std", "scale"):
            out[k] = logu(v.shape, 0.1 if half else 1e-3, 10. if half else 1e3)
        elif k == "logstd":
            out[k] = g.uniform(-2 if half else -7, 2 if half else 7, v.shape)
        elif k in ("mean", "loc"):
            out[k] = g.uniform(-8, 8, v.shape) * (1 if half else 100)
        elif k in ("alpha", "beta"):
            out[k] = logu(v.shape, 0.5 if half else 0.02, 8. if half else 100.)
        elif k == "temperature":
            out[k] = logu(v.shape, 0.5 if half else 0.05, 5.0)
        elif k == "logits":
            out[k] = g.uniform(-lim, lim, v.shape)
        elif k == "rate":
            out[k] = logu(v.shape, 0.1, 50.0)
        elif k == "minval":
            out[k] = np.asarray(g.choice([0.0, -1.0, 0.1, 3.0, 1000.0, -7.3],
                                         size=v.shape))
        elif k == "maxval":
            out[k] = None
        else:
            out[k] = v
    if "minval" in out:
        top = np.max(out["minval"])
        out["maxval"] = top + np.asarray(
            g.choice([0.2, 1.0, 0.3, 7.1], size=p["maxval"].shape))
        if half:
            out["minval"] = np.minimum(out["minval"], 3.0)
            out["maxval"] = 3.0 + np.asarray(g.choice(
                [0.25, 1.0, 7.0], size=p["maxval"].shape))
    return out


class Extreme(object):
    """Replaces elements of a draw by values at the ends of the generator's
    range (TF's kernels: uniform in [0, 1-2^-m], Box-Muller normal bounded by
    sqrt(-2 log 1e-7), gamma >= 0, Poisson >= 0)."""

    def __init__(self, rate, seed, ctx):
        self.rate, self.seed, self.ctx, self.k = rate, seed, ctx, 0

    def __call__(self, node, v, g):
        self.k += 1
        v = np.array(v)
        r = np.random.default_rng([self.seed & 0xFFFFFFFF, self.k])
        t = node.type
        if t == "RandomUniform":
            m = mantissa_max(v.dtype)
            c = [0.0, 0.0, m, m, 1.0 - m, 0.5]
        elif t in ("RandomStandardNormal", "TruncatedNormal"):
            b = 5.678 if t != "TruncatedNormal" else 1.999
            c = [-b, b, 0.0]
        elif t == "RandomGamma":
            c = [0.0, float(np.finfo(v.dtype).tiny), 1e-6,
                 float(v.max()) * 3 + 30 if v.size else 1.0]
        elif t in ("RandomPoissonV2", "RandomPoisson"):
            c = [0.0, float(v.max()) * 2 + 20 if v.size else 0.0]
        elif t == "Multinomial":
            c = [0, None]
        else:
            return None
        mask = r.random(v.shape) < self.rate
        pick = r.integers(0, len(c), size=v.shape)
        if t == "Multinomial":
            top = node.op.inputs[0].get_shape().as_list()[-1]
            c[1] = (top or 1) - 1
        vals = np.asarray(c, np.float64)[pick].astype(v.dtype)
        for i in range(len(c)):
            n = int((mask & (pick == i)).sum())
            if n:
                self.ctx.faults["%s=%s" % (t, ["low", "tiny", "mid", "high"][
                    min(i, 3)])] += n
        return np.where(mask, vals, v).astype(v.dtype)


def run(sc, ctx):
    f = FAMS[sc["fam"]]
    name = sc["fam"]
    g = np.random.default_rng(sc["pseed"])
    p = f.params(g, tuple(sc["sa"]), tuple(sc["sb"]))
    if sc["wide"]:
        p = widen(p, g, sc["dtype"])
    p = {k: v if isinstance(v, int) else np.asarray(v, sc["dtype"])
         for k, v in p.items()}
    graph = tf.Graph()
    feeds = {}
    with graph.as_default():
        tp = tf_params(p, sc["dtype"], sc["fed"], feeds)
        kw = {}
        if sc["vdtype"]:
            kw["dtype"] = tf.as_dtype(sc["vdtype"])
        _, x, lp = ctx.lib(draw, name, tp, kw, sc["n"], sc["via"])
        fetch = [x, lp]
        grads = []
        if f.reparam:
            keys = [k for k, v in tp.items() if isinstance(v, tf.Tensor) and
                    v.dtype.is_floating]
            gr = tf.gradients(tf.reduce_sum(x), [tp[k] for k in keys])
            grads = [(k, t) for k, t in zip(keys, gr) if t is not None]
            fetch += [t for _, t in grads]
    s = SimSession(graph, sc["seed"], ctx.sched())
    s.rng.extreme = Extreme(sc["rate"], sc["seed"], ctx)
    pf = {k: v if isinstance(v, int) else v.astype(np.float64)
          for k, v in p.items()}
    for i in range(sc["runs"]):
        out = ctx.lib(s.run, fetch, feeds)
        x_, lp_ = np.asarray(out[0], np.float64), np.asarray(out[1], np.float64)

        def at(bad):
            return tuple(np.argwhere(bad)[0])
        bad = ~np.isfinite(x_)
        if bad.any():
            raise Violation("not-finite", "%s: sample %r at %s for finite "
                            "parameters %s" % (name, x_[at(bad)],
                                               list(map(int, at(bad))), show(p)),
                            fam=name)
        ok = f.support(x_, pf)
        if not np.all(ok):
            j = at(~ok)
            raise Violation("support", "%s: sample %r is outside the support, "
                            "parameters %s" % (name, x_[j].tolist(), show(p)),
                            fam=name)
        if sc["dtype"] != "float16":
            bad = ~np.isfinite(lp_)
            if name in EDGE:
                e = (x_ <= 0) | (x_ >= 1)
                if f.vdim:
                    e = e.any(-1)
                bad = bad & ~e
                ctx.probes["edge-samples"] += int(e.sum())
            if bad.any():
                j = at(bad)
                raise Violation("log-prob", "%s: log_prob is %r at its own "
                                "sample %r, parameters %s"
                                % (name, lp_[j], x_[j].tolist(), show(p)),
                                fam=name)
            for (k, _), gv in zip(grads, out[2:]):
                if not np.isfinite(gv).all():
                    raise Violation("gradient", "%s: the gradient of a sample "
                                    "with respect to %s is %r, parameters %s"
                                    % (name, k, np.asarray(gv).ravel()[:4],
                                       show(p)), fam=name)
        ctx.stats["samples"] += x_.size


def show(p):
    return {k: np.asarray(v).ravel()[:3].tolist() for k, v in p.items()}
