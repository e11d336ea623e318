"""Target models used by the sampler checks: a coupled, non-Gaussian density
with analytic gradient, as a plain function or as a MetaBayesianNet."""
from . import tfenv  # noqa: F401
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

EPS = float(np.finfo(np.float32).eps)


def q16(x):
    """Round to a float32-exact grid so TF and numpy start from equal numbers."""
    return np.round(np.asarray(x, np.float64) * 4096.0) / 4096.0


def gen_model(r, max_latents=3, forms=("func", "bn"), chains=None,
              resource=True, min_latents=1, quartic=True):
    chain = r.choice(chains if chains is not None else
                     [[], [1], [2], [3], [4], [2, 2], [3, 2]])
    k = r.choice([x for x in (1, 2, 2, 3) if min_latents <= x <= max_latents])
    names = r.sample(["z", "w", "theta", "a0", "mu", "b_1"], k)
    form = r.choice(list(forms))
    lat = []
    for i in range(k):
        lat.append({
            "name": names[i],
            "data": r.choice([[], [1], [2], [3], [2, 2], [1, 3]]),
            "m": r.randrange(-16, 17) / 16.0,
            "ramp": r.choice([0.0, 0.25, 0.5]),
            "a": r.choice([0.5, 1.0, 2.0, 4.0]),
            "b": r.choice([0.0, 0.125, 0.5]) if form == "func" and quartic
            else 0.0,
            "w": r.choice([-1.0, -0.5, 0.5, 1.0, 1.5]),
            "resource": False,
        })
    return {"chain": chain, "latents": lat, "form": form,
            "c": r.choice([0.25, 1.0, 2.0]),
            "e": r.choice([0.0, 0.25, 0.5, 0.5]),
            "xshape": r.choice(["scalar", "chain"]),
            "xfeed": r.random() < 0.5,
            "x": r.randrange(-32, 33) / 16.0,
            "init_seed": large(r.getrandbits(30), chain, lat, names,
                               chains is None)}


def large(seed, chain, lat, names, free):
    """Now and then a model of unusual size."""
    r = random.Random("large-%d" % seed)
    k = r.random()
    if free and k < 0.03 and len(chain) == 1:
        chain[0] = r.choice([7, 12, 33])
    elif k < 0.06:
        # the sum over many entries enters the density: keep it moderate
        lat[-1].update(data=r.choice([[9], [20], [4, 5]]), w=0.25, b=0.0,
                       ramp=0.0)
    elif k < 0.09 and len(lat) > 1:
        # sizes of their own, so that momentum draws can be told apart
        for i, n in enumerate(sorted(
                {"z", "w", "theta", "a0", "mu", "b_1", "q7"} -
                set(names))[:r.choice([2, 3])]):
            lat.append(dict(lat[0], name=n, data=[5 + 2 * i]))
    return seed


class Model(object):
    def __init__(self, spec):
        self.s = spec
        self.chain = tuple(spec["chain"])
        self.names = [l["name"] for l in spec["latents"]]
        self.lat = {l["name"]: l for l in spec["latents"]}
        g = np.random.default_rng(spec["init_seed"])
        self.shape = {}
        self.mean = {}
        self.init = {}
        for l in spec["latents"]:
            d = tuple(l["data"])
            n = l["name"]
            self.shape[n] = self.chain + d
            size = int(np.prod(d)) if d else 1
            self.mean[n] = q16(l["m"] + l["ramp"] *
                               np.arange(size).reshape(d))
            self.init[n] = q16(g.normal(size=self.shape[n]) * 0.8)
        self.log2pi = np.log(2 * np.pi)

    # ---- numpy side (float64)
    def x_value(self, v):
        if self.s["xshape"] == "chain" and self.chain:
            n = int(np.prod(self.chain))
            return q16(v + 0.25 * np.arange(n).reshape(self.chain))
        return q16(v)

    def _sums(self, q, f=lambda z: z):
        return [f(q[n]).reshape(self.chain + (-1,)).sum(-1)
                for n in self.names]

    def _s(self, q):
        """Location of the observation: linear plus pairwise products, so the
        gradient of one latent reads the value of another directly."""
        ss = self._sums(q)
        t = np.zeros(self.chain)
        for i, n in enumerate(self.names):
            t = t + self.lat[n]["w"] * ss[i]
            if i:
                t = t + self.s["e"] * ss[i - 1] * ss[i]
        return t

    def _s_abs(self, q):
        ss = self._sums(q, np.abs)
        t = np.zeros(self.chain)
        for i, n in enumerate(self.names):
            t = t + abs(self.lat[n]["w"]) * ss[i]
            if i:
                t = t + abs(self.s["e"]) * ss[i - 1] * ss[i]
        return t

    def _coef(self, ss, i, f=lambda w: w):
        c = f(self.lat[self.names[i]]["w"]) + np.zeros(self.chain)
        if i:
            c = c + f(self.s["e"]) * ss[i - 1]
        if i + 1 < len(self.names):
            c = c + f(self.s["e"]) * ss[i + 1]
        return c

    def logp(self, q, x):
        c = self.s["c"]
        lp = -0.5 * c * (self._s(q) - x) ** 2
        for n in self.names:
            l = self.lat[n]
            z = q[n]
            t = -0.5 * l["a"] * (z - self.mean[n]) ** 2 - 0.25 * l["b"] * z ** 4
            if self.s["form"] == "bn":
                t = t - 0.5 * self.log2pi + 0.5 * np.log(l["a"])
            lp = lp + t.reshape(self.chain + (-1,)).sum(-1)
        if self.s["form"] == "bn":
            lp = lp - 0.5 * self.log2pi + 0.5 * np.log(c)
        return lp

    def logp_abs(self, q, x):
        """Sum of absolute terms: scale of the float32 rounding error."""
        c = self.s["c"]
        s = self._s_abs(q)
        lp = np.ones(self.chain)
        for n in self.names:
            l = self.lat[n]
            z = np.abs(q[n])
            t = 0.5 * l["a"] * (z + np.abs(self.mean[n])) ** 2 + \
                0.25 * l["b"] * z ** 4 + 2.0
            lp = lp + t.reshape(self.chain + (-1,)).sum(-1)
        return lp + 0.5 * c * (s + np.abs(x)) ** 2

    def _ex(self, v, n):
        return np.reshape(v, np.shape(v) + (1,) * len(self.lat[n]["data"]))

    def grad(self, q, x):
        c = self.s["c"]
        r = np.broadcast_to(-c * (self._s(q) - x), self.chain)
        ss = self._sums(q)
        out = {}
        for i, n in enumerate(self.names):
            l = self.lat[n]
            z = q[n]
            g = -l["a"] * (z - self.mean[n]) - l["b"] * z ** 3
            out[n] = g + self._ex(self._coef(ss, i) * r, n)
        return out

    def grad_abs(self, q, x):
        c = self.s["c"]
        r = np.broadcast_to(c * (self._s_abs(q) + np.abs(x)), self.chain)
        ss = self._sums(q, np.abs)
        out = {}
        for i, n in enumerate(self.names):
            l = self.lat[n]
            z = np.abs(q[n])
            g = l["a"] * (z + np.abs(self.mean[n])) + l["b"] * z ** 3
            out[n] = g + self._ex(self._coef(ss, i, abs) * r, n)
        return out

    # ---- TF side
    def tf_logjoint(self, hook=None):
        """hook(lp_terms tensor) lets a check add fault points to the model."""
        s = self.s

        def total(o):
            acc = prev = None
            for n in self.names:
                z = o[n]
                rank = len(self.lat[n]["data"])
                axes = list(range(len(self.chain), len(self.chain) + rank))
                zs_ = tf.reduce_sum(z, axes) if rank else \
                    tf.convert_to_tensor(z)
                t = self.lat[n]["w"] * zs_
                if prev is not None and s["e"]:
                    # elementwise product: its gradient with respect to the
                    # previous latent reads this one's value directly
                    pv = prev
                    for _ in range(rank):
                        pv = tf.expand_dims(pv, -1)
                    pr = z * pv
                    t = t + s["e"] * (tf.reduce_sum(pr, axes) if rank else pr)
                acc = t if acc is None else acc + t
                prev = zs_
            return acc

        if s["form"] == "func":
            def log_joint(o):
                S = total(o)
                lp = -0.5 * s["c"] * tf.square(S - o["x"])
                for n in self.names:
                    l = self.lat[n]
                    z = o[n]
                    t = -0.5 * l["a"] * tf.square(
                        z - tf.constant(self.mean[n], tf.float32))
                    if l["b"]:
                        t = t - 0.25 * l["b"] * tf.square(tf.square(z))
                    rank = len(l["data"])
                    if rank:
                        t = tf.reduce_sum(t, list(range(
                            len(self.chain), len(self.chain) + rank)))
                    lp = lp + t
                if hook is not None:
                    lp = hook(o, lp)
                return lp
            return log_joint

        model = self

        @zs.meta_bayesian_net(scope=None)
        def build():
            bn = zs.BayesianNet()
            zz = {}
            for n in model.names:
                l = model.lat[n]
                zz[n] = bn.normal(
                    n, tf.constant(np.broadcast_to(
                        model.mean[n], model.shape[n]), tf.float32),
                    std=float(1.0 / np.sqrt(l["a"])),
                    group_ndims=len(l["data"]))
            bn.normal("x", total(zz), std=float(1.0 / np.sqrt(s["c"])))
            return bn
        mbn = build()
        if hook is not None:
            def lj(o):
                return hook(o, mbn.observe(**o).log_joint())
            return lj
        return mbn

    def variables(self):
        return {n: tf.Variable(self.init[n].astype(np.float32),
                               name="lat_" + n,
                               use_resource=self.lat[n]["resource"])
                for n in self.names}


def f64(d):
    return {k: np.asarray(v, np.float64) for k, v in d.items()}


def recording(marks):
    """logjoint factory that records which graph operations the model made."""
    def make(model):
        inner = model.tf_logjoint(hook=lambda o, lp: lp)

        def lj(o):
            g = tf.get_default_graph()
            n0 = len(g.get_operations())
            r = inner(o)
            marks.update(op.name for op in g.get_operations()[n0:])
            return r
        return lj
    return make
