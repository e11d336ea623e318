"""Variational-inference world: a small model and variational family with
numpy definitions of every objective, surrogate cost and gradient."""
from . import tfenv  # noqa: F401
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs
from scipy import special

from .executor import SimSession

L2PI = np.log(2 * np.pi)


LOCSCALE = ("normal", "laplace")
TWO = ("normal", "laplace", "gamma", "beta", "invgamma")   # also have ls


def gen_vi(r, families=("normal", "bernoulli"), reparam=None, axes=None):
    """axes: None (the n_samples axis), "int" or "any" (which axes of the log
    weights the objective may reduce)"""
    fam = r.choice(list(families))
    k = r.choice([1, 2, 2, 3])
    data = r.choice([[], [], [1], [3]])
    spec = _gen_vi(r, fam, k, data, reparam)
    r2 = random.Random("vi-large-%r" % (spec["x"], ) + str(spec["theta"]) +
                       "".join(str(l) for l in spec["latents"]))
    if r2.random() < 0.06:
        if spec["K"] is not None:
            spec["K"] = r2.choice([5, 7, 11])
        elif spec["batch"]:
            spec["batch"] = spec["batch"][:-1] + [r2.choice([5, 8])]
    if axes:
        nd = (spec["K"] is not None) + len(spec["batch"])
        if nd and r.random() < 0.4:
            ax = r.randrange(nd)
            if axes == "any" and r.random() < 0.5:
                ax = sorted(r.sample(range(nd), r.randrange(1, nd + 1)))
            spec["axis"] = ax
        elif axes == "any" and r.random() < 0.1:
            spec["axis"] = None
        spec["kdyn"] = r.random() < 0.3
        spec["xdyn"] = r.random() < 0.3
    return spec


def _gen_vi(r, fam, k, data, reparam):
    K = r.choice([None, 2, 2, 3, 4])
    return {"family": fam, "latents": [
        {"name": n, "prior": r.randrange(-8, 9) / 8.0,
         "a": r.choice([-1.0, 0.5, 1.5]),
         "mu": r.randrange(-8, 9) / 8.0, "ls": r.choice([-0.5, 0.0, 0.25])}
        for n in r.sample(["z", "h", "w", "y1"], k)],
        "data": data, "batch": r.choice([[], [1], [2], [3], [2, 3], [3, 2]]),
        "K": K, "axis": None if K is None else 0,
        "hier": r.random() < 0.5, "cpl": r.choice([0.5, -0.5, 1.0]),
        "theta": r.choice([0.5, 1.0, -0.75]),
        "reparam": r.random() < 0.5 if reparam is None else reparam,
        "form": r.choice(["bn", "bn", "func"]),
        "pass": r.choice(["variational", "variational", "latent"]),
        "x": r.randrange(-16, 17) / 8.0}


def lme(v, axis, keep=False):
    axis = tuple(axis) if isinstance(axis, list) else axis
    m = v.max(axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(divide="ignore"):
        o = np.log(np.mean(np.exp(v - m), axis, keepdims=True)) + m
    return o if keep else np.squeeze(o, axis)


def sig(x):
    return np.exp(0.5 * np.tanh(x))


def tfsig(x):
    return tf.exp(0.5 * tf.tanh(x))


class VIWorld(object):
    """Parameters: theta (model), mu_i, ls_i (variational), all scalars or
    batch shaped TF variables."""

    def __init__(self, spec, ctx, seed, graph_seed=None, graph=None,
                 scope="user"):
        self.s, self.ctx, self.seed = spec, ctx, seed
        self.names = [l["name"] for l in spec["latents"]]
        self.lat = {l["name"]: l for l in spec["latents"]}
        # a posterior may be missing
        self.qnames = self.names[:-1] if spec.get("missing") else self.names
        self.batch = tuple(spec["batch"])
        self.data = tuple(spec["data"])
        self.K = spec["K"]
        self.nd = len(self.data)
        self.g = tf.Graph() if graph is None else graph
        self.fam = spec["family"]
        self.hard = spec.get("hard")
        with self.g.as_default():
            if graph_seed is not None:
                tf.set_random_seed(graph_seed)
            with tf.variable_scope(scope):
                self.theta = tf.get_variable(
                    "theta", [], initializer=tf.constant_initializer(
                        spec["theta"]))
                self.mu, self.ls = {}, {}
                for n in self.names:
                    l = self.lat[n]
                    init = self.mu0(n).astype(np.float32)
                    self.mu[n] = tf.get_variable("mu_" + n, initializer=init)
                    if self.fam in TWO:
                        self.ls[n] = tf.get_variable(
                            "ls_" + n, [],
                            initializer=tf.constant_initializer(l["ls"]))
            self.x_ph = tf.placeholder(
                tf.float32, None if spec.get("xdyn") else self.batch,
                name="x_feed")
            self.k_ph = None
            if spec.get("kdyn") and self.K is not None:
                self.k_ph = tf.placeholder(tf.int32, [], name="k_feed")
            self.pparams = [("theta", None)]
            self.vparams = [("mu", n) for n in self.names] + (
                [("ls", n) for n in self.names] if self.fam in TWO else [])
            self.meta = self._model()
            self.q = ctx.lib(self._variational)
            self.zt = {n: tf.convert_to_tensor(self.q[n])
                       for n in self.qnames}

    def mu0(self, n):
        l = self.lat[n]
        size = int(np.prod(self.batch + self.data)) if \
            self.batch + self.data else 1
        return (l["mu"] + 0.125 * np.arange(size)).reshape(
            self.batch + self.data)

    def var(self, p):
        return self.theta if p[0] == "theta" else \
            (self.mu if p[0] == "mu" else self.ls)[p[1]]

    # ---- TF
    @property
    def Kt(self):
        return self.K if self.k_ph is None else self.k_ph

    def feed(self, xv):
        f = {self.x_ph: xv}
        if self.k_ph is not None:
            f[self.k_ph] = self.K
        return f

    def _loc(self, n, prev, mu):
        if self.s["hier"] and prev is not None:
            return mu + self.s["cpl"] * tf.cast(prev, tf.float32)
        return mu

    def _variational(self):
        if self.s.get("aux"):
            # nodes that are no latents: an observed one and deterministic ones
            bn = zs.BayesianNet({"aux": tf.constant(1.5)})
            bn.normal("aux", self.theta, std=2.)
            bn.deterministic("det", self.theta * 2.)
        else:
            bn = zs.BayesianNet()
        prev = None
        for n in self.qnames:
            loc = self._loc(n, prev, self.mu[n])
            ns = self.Kt if prev is None or not self.s["hier"] else None
            kw = {"n_samples": ns, "group_ndims": self.nd}
            if self.fam == "normal":
                z = bn.normal(n, loc, logstd=self.ls[n],
                              is_reparameterized=self.s["reparam"], **kw)
            elif self.fam == "laplace":
                z = bn.laplace(n, loc, tf.exp(self.ls[n]),
                               is_reparameterized=self.s["reparam"], **kw)
            elif self.fam == "gamma":
                z = bn.gamma(n, tfsig(loc), tf.exp(self.ls[n]), **kw)
            elif self.fam == "invgamma":
                z = bn.inverse_gamma(n, 2.0 + tfsig(loc), tf.exp(self.ls[n]),
                                     **kw)
            elif self.fam == "beta":
                z = bn.beta(n, 0.5 + tfsig(loc), 0.5 + tf.exp(self.ls[n]),
                            **kw)
            else:
                z = bn.bernoulli(n, loc, n_samples=ns, group_ndims=self.nd,
                                 dtype=tf.float32)
            prev = z
        return bn

    def _S(self, z):
        s = None
        for n in self.names:
            v = self.lat[n]["a"] * tf.cast(z[n], tf.float32)
            if self.nd:
                v = tf.reduce_sum(v, -1)
            s = v if s is None else s + v
        return s

    def _model(self):
        w = self

        @zs.meta_bayesian_net()
        def build():
            bn = zs.BayesianNet()
            zz = {}
            shape = w.batch + w.data
            for n in w.names:
                base = tf.constant(np.full(shape, w.lat[n]["prior"]),
                                   tf.float32)
                kw = {"n_samples": w.Kt, "group_ndims": w.nd}
                if w.fam == "normal":
                    zz[n] = bn.normal(n, base, std=1., **kw)
                elif w.fam == "laplace":
                    zz[n] = bn.laplace(n, base, tf.ones_like(base), **kw)
                elif w.fam == "gamma":
                    zz[n] = bn.gamma(n, tfsig(base), tf.ones_like(base), **kw)
                elif w.fam == "invgamma":
                    zz[n] = bn.inverse_gamma(n, 2.0 + tfsig(base),
                                             tf.ones_like(base), **kw)
                elif w.fam == "beta":
                    zz[n] = bn.beta(n, 0.5 + tfsig(base),
                                    1.5 * tf.ones_like(base), **kw)
                else:
                    zz[n] = bn.bernoulli(n, base, dtype=tf.float32, **kw)
            S = w._S(zz)
            bn.normal("x", w.theta * S, std=1.)
            for i in range(abs(w.offset)):
                if w.offset > 0:
                    bn.uniform("off%d" % i, 0., 1e-30)
                else:
                    bn.normal("off%d" % i, 0., std=1.)
            if w.hard is not None and w.s["form"] != "func":
                # zero density where S > hard: the observed 0.5 is then
                # outside the support of u
                lo = tf.where(S > w.hard, 2. * tf.ones_like(S),
                              tf.zeros_like(S))
                bn.uniform("u", lo, lo + 1.)
            return bn
        mb = build()
        if self.s["form"] == "func":
            def log_joint(o):
                lj = mb.observe(**o).log_joint()
                if w.hard is not None:
                    lj += tf.where(w._S(o) > w.hard, tf.fill(tf.shape(
                        lj), np.float32(-np.inf)), tf.zeros_like(lj))
                return lj
            return log_joint
        return mb

    def obs(self):
        o = {"x": self.x_ph}
        if self.hard is not None and self.s["form"] != "func":
            o["u"] = tf.constant(0.5)
        for i in range(abs(self.offset)):
            o["off%d" % i] = tf.constant(0. if self.offset > 0 else 12.)
        return o

    @property
    def offset(self):
        """the log joint is shifted by about 70 this many times"""
        return self.s.get("offset", 0)

    def objective(self, kind):
        f = {"elbo": zs.variational.elbo, "iw": zs.variational.iw_objective,
             "klpq": zs.variational.klpq}[kind]
        kw = {"axis": self.s["axis"]}
        if self.s["pass"] == "variational":
            kw["variational"] = self.q
        else:
            # the deprecated form takes (samples, log probabilities)
            kw["latent"] = {n: (self.zt[n], self.q[n].cond_log_p)
                            for n in self.qnames}
        o = self.obs()
        v = f(self.meta, o, **kw)
        if self.s.get("reused"):
            # the caller goes on using its dictionaries
            o["x"] = o["x"] + 3.
            for n in kw.get("latent", ()):
                kw["latent"][n] = (self.zt[n] + 1., self.zt[n])
        return v

    def is_ll(self):
        kw = {"axis": self.s["axis"]}
        if self.s["pass"] == "variational":
            kw["proposal"] = self.q
        else:
            kw["latent"] = {n: (self.zt[n], self.q[n].cond_log_p)
                            for n in self.qnames}
        return zs.is_loglikelihood(self.meta, self.obs(), **kw)

    def session(self, label="main"):
        return SimSession(self.g, self.seed, self.ctx.sched(label))

    # ---- numpy definitions
    def params(self, s):
        return {p: np.asarray(s.get(self.var(p)), np.float64)
                for p in self.pparams + self.vparams}

    def x(self, v):
        size = int(np.prod(self.batch)) if self.batch else 1
        return (v + 0.25 * np.arange(size)).reshape(self.batch)

    def _red(self, t):
        return t.sum(-1) if self.nd else t

    def dens(self, x, loc, ls, prior):
        s = np.exp(ls)
        if self.fam == "normal":
            return -0.5 * L2PI - ls - 0.5 * ((x - loc) / s) ** 2
        if self.fam == "laplace":
            return -np.log(2.0) - ls - np.abs(x - loc) / s
        a = sig(loc)
        if self.fam == "gamma":
            return a * ls - special.gammaln(a) + (a - 1) * np.log(x) - s * x
        if self.fam == "invgamma":
            a = a + 2.0
            return a * ls - special.gammaln(a) - (a + 1) * np.log(x) - s / x
        a, b = a + 0.5, 1.5 if prior else s + 0.5
        return special.gammaln(a + b) - special.gammaln(a) - \
            special.gammaln(b) + (a - 1) * np.log(x) + (b - 1) * np.log1p(-x)

    def logq(self, z, P):
        out = 0.0
        prev = None
        for n in self.names:
            loc = P[("mu", n)]
            if self.s["hier"] and prev is not None:
                loc = loc + self.s["cpl"] * prev
            if self.fam in TWO:
                ls = P[("ls", n)]
                t = self.dens(z[n], loc, ls, False)
            else:
                t = z[n] * loc - np.logaddexp(0, loc)
            out = out + self._red(t)
            prev = z[n]
        return out

    def logp(self, z, P, x):
        out = 0.0
        S = 0.0
        for n in self.names:
            b = self.lat[n]["prior"]
            if self.fam in TWO:
                t = self.dens(z[n], np.float64(b), 0.0, True)
            else:
                t = z[n] * b - np.logaddexp(0, b)
            out = out + self._red(t)
            S = S + self._red(self.lat[n]["a"] * z[n])
        out = out + (-np.log(np.float64(np.float32(1e-30))) * self.offset
                     if self.offset > 0 else
                     (0.5 * L2PI + 72.0) * self.offset)
        if self.hard is not None:
            out = np.where(S > self.hard, -np.inf, out)
        return out - 0.5 * L2PI - 0.5 * (x - P[("theta", None)] * S) ** 2

    def margin(self, z):
        """how far the draws are from the edge of the model's support"""
        if self.hard is None:
            return np.inf
        S = 0.0
        for n in self.names:
            S = S + self._red(self.lat[n]["a"] * z[n])
        return float(np.min(np.abs(S - self.hard)))

    def eps(self, z, P):
        e, prev = {}, None
        for n in self.names:
            loc = P[("mu", n)]
            if self.s["hier"] and prev is not None:
                loc = loc + self.s["cpl"] * prev
            e[n] = (z[n] - loc) / np.exp(P[("ls", n)])
            prev = z[n]
        return e

    def push(self, e, P):
        z, prev = {}, None
        for n in self.names:
            loc = P[("mu", n)]
            if self.s["hier"] and prev is not None:
                loc = loc + self.s["cpl"] * prev
            z[n] = loc + np.exp(P[("ls", n)]) * e[n]
            prev = z[n]
        return z

    def zfun(self, z, P):
        """z as a function of the parameters: constant or reparameterised."""
        if self.fam in LOCSCALE and self.s["reparam"]:
            e = self.eps(z, P)
            return lambda Q: self.push(e, Q)
        return lambda Q: z

    def mean(self, v):
        return v if self.s["axis"] is None else v.mean(self.ax)

    @property
    def ax(self):
        a = self.s["axis"]
        return tuple(a) if isinstance(a, list) else a

    def surrogate(self, kind, z, P, x, sub=0.0):
        """-> function of parameters whose gradient at P is the estimator, and
        whose value at P is the surrogate cost (per data element)."""
        zf = self.zfun(z, P)
        ax = self.ax
        lw0 = self.logp(z, P, x) - self.logq(z, P)
        if kind == "elbo":
            return lambda Q: self.mean(self.logp(zf(Q), Q, x) -
                                       self.logq(zf(Q), Q))
        if kind == "sgvb":
            return lambda Q: -self.mean(self.logp(zf(Q), Q, x) -
                                        self.logq(zf(Q), Q))
        if kind in ("iw", "is"):
            return lambda Q: lme(self.logp(zf(Q), Q, x) -
                                 self.logq(zf(Q), Q), ax)
        if kind == "iw-sgvb":
            return lambda Q: -lme(self.logp(zf(Q), Q, x) -
                                  self.logq(zf(Q), Q), ax)
        if kind == "reinforce":
            sig = lw0 - sub
            return lambda Q: self.mean(-self.logp(zf(Q), Q, x) -
                                       sig * self.logq(zf(Q), Q))
        if kind == "vimco":
            K = lw0.shape[ax]
            sig = np.zeros_like(lw0)
            tot = lme(lw0, ax)
            for k in range(K):
                idx = [slice(None)] * lw0.ndim
                idx[ax] = k
                alt = lw0.copy()
                others = np.delete(lw0, k, ax).sum(ax) / (K - 1)
                alt[tuple(idx)] = others
                with np.errstate(invalid="ignore"):
                    sig[tuple(idx)] = tot - lme(alt, ax)
            return lambda Q: -(self.logq(zf(Q), Q) * sig).sum(ax) - \
                lme(self.logp(zf(Q), Q, x) - self.logq(zf(Q), Q), ax)
        if kind == "klpq":
            if ax is None:
                return lambda Q: -self.logq(zf(Q), Q)
            with np.errstate(invalid="ignore"):
                m = lw0.max(ax, keepdims=True)
                w = np.exp(lw0 - m)
                w = w / w.sum(ax, keepdims=True)
            return lambda Q: -(w * self.logq(zf(Q), Q)).sum(ax)
        raise ValueError(kind)

    def grad(self, f, P, p):
        """d sum(f) / d P[p] by fourth-order central differences."""
        base = P[p]
        out = np.zeros_like(np.asarray(base, np.float64))
        h = 1e-5 if self.fam == "laplace" else 1e-3
        for i in np.ndindex(np.shape(base)):
            def at(d):
                Q = dict(P)
                b = np.array(base, np.float64)
                b[i] += d
                Q[p] = b
                return float(np.sum(f(Q)))
            out[i] = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        return out
