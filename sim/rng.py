"""The randomness seam: every random op of the graph draws from here.

A draw is a pure function of (simulation seed, run number, op, frame, loop
iteration) for unseeded ops, so it does not depend on the schedule.  Ops that
carry a fixed seed behave as TF's do: their stream is a function of (seed,
seed2) and of how often that op instance has run, in every process.
"""
import hashlib

import numpy as np

RANDOM_OPS = {"RandomStandardNormal", "RandomUniform", "RandomUniformInt",
              "TruncatedNormal", "RandomGamma", "RandomPoissonV2",
              "RandomPoisson", "Multinomial", "RandomShuffle"}


def stream(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=16).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(d, "little")))


def mantissa_max(dt):
    """Largest value the TF uniform kernel can return for this dtype."""
    bits = {np.dtype(np.float16): 10, np.dtype(np.float32): 23,
            np.dtype(np.float64): 52}.get(np.dtype(dt))
    if bits is None:         # bfloat16
        bits = 7
    return 1.0 - 2.0 ** -bits


class Draw(object):
    __slots__ = ("op", "type", "frame", "it", "value", "ins")

    def __init__(self, op, typ, frame, it, value, ins):
        self.op, self.type, self.frame, self.it = op, typ, frame, it
        self.value, self.ins = value, ins


class RngSeam(object):
    def __init__(self, seed):
        self.seed = seed
        self.count = {}
        self.rec = None
        self.n_draws = 0
        self.extreme = None      # optional: callable(node, value, gen) -> value
        self.extreme_hits = 0
        self.override = None     # optional: callable(node, type, shape) -> value

    def begin_run(self, rec):
        self.rec = rec

    def draw(self, sess, node, ins):
        frame, it = sess._cur
        a = node.attrs
        if a["seed"] or a["seed2"]:
            k = self.count.get(node.name, 0)
            self.count[node.name] = k + 1
            g = stream("fixed", node.type, a["seed"], a["seed2"], k)
        else:
            g = stream(self.seed, self.rec.index, node.name, frame, it)
        v = self.kernel(node.type, ins, a["dtype"], g)
        if self.override is not None:
            o = self.override(node, v)
            if o is not None:
                v = np.asarray(o, dtype=v.dtype).reshape(v.shape)
        if self.extreme is not None:
            w = self.extreme(node, v, g)
            if w is not None:
                v = w
                self.extreme_hits += 1
        self.n_draws += 1
        self.rec.draws.append(Draw(node.name, node.type, frame, it, v, ins))
        return v

    @staticmethod
    def kernel(typ, ins, dtype, g):
        dt = dtype.as_numpy_dtype
        shape = tuple(int(x) for x in np.atleast_1d(ins[0])) \
            if typ not in ("Multinomial", "RandomShuffle") else None
        if typ == "RandomStandardNormal":
            # Box-Muller in TF: |x| <= sqrt(-2 log 1e-7) = 5.68
            return np.clip(g.standard_normal(shape), -5.67, 5.67).astype(dt)
        if typ == "TruncatedNormal":
            x = g.standard_normal(shape)
            while True:
                bad = np.abs(x) >= 2
                if not bad.any():
                    return x.astype(dt)
                x = np.where(bad, g.standard_normal(shape), x)
        if typ == "RandomUniform":
            m = {np.dtype(np.float16): 10, np.dtype(np.float32): 23}.get(
                np.dtype(dt), 52)
            k = g.integers(0, 2 ** m, size=shape)
            return (k * 2.0 ** -m).astype(dt)
        if typ == "RandomUniformInt":
            return g.integers(int(ins[1]), int(ins[2]), size=shape).astype(dt)
        if typ == "RandomGamma":
            alpha = np.asarray(ins[1], np.float64)
            return g.standard_gamma(
                np.broadcast_to(alpha, shape + alpha.shape)).astype(dt)
        if typ in ("RandomPoissonV2", "RandomPoisson"):
            rate = np.asarray(ins[1], np.float64)
            return g.poisson(
                np.broadcast_to(rate, shape + rate.shape)).astype(dt)
        if typ == "Multinomial":
            logits = np.asarray(ins[0], np.float64)
            n = int(ins[1])
            z = logits - logits.max(1, keepdims=True)
            p = np.exp(z)
            c = np.cumsum(p / p.sum(1, keepdims=True), axis=1)
            u = g.random((logits.shape[0], n))
            k = (u[:, :, None] > c[:, None, :]).sum(2)
            return np.minimum(k, logits.shape[1] - 1).astype(dt)
        if typ == "RandomShuffle":
            return g.permutation(np.asarray(ins[0]))
        raise NotImplementedError(typ)
