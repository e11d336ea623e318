"""Reference model of the SGMCMC algorithms.

`explain` decides whether one observed iteration (positions before and after)
is the documented update for some assignment of the generator outputs recorded
in that run to the noise (and, when resampling, momentum) terms."""
import itertools

import numpy as np

from .core import Violation

EPS = float(np.finfo(np.float32).eps)


class Pool(object):
    """Normal draws recorded in a run; each element may be used once."""

    def __init__(self, draws):
        self.t = [np.asarray(d.value, np.float64).ravel() for d in draws
                  if d.type == "RandomStandardNormal"]
        self.flat = np.concatenate(self.t) if self.t else np.zeros(0)
        self.off = np.cumsum([0] + [len(x) for x in self.t])

    def tensors(self, size):
        return [i for i, x in enumerate(self.t) if len(x) == size]

    def fresh(self):
        return np.zeros(len(self.flat), bool)


def match(res, sd, tol, pool, used):
    """Is `res` = sd * (distinct unused draws), within tol (absolute)?"""
    res = res.ravel()
    tol = np.broadcast_to(tol, res.shape) if np.ndim(tol) == 0 else \
        np.asarray(tol).ravel()
    sd = np.broadcast_to(np.asarray(sd, np.float64), res.shape) \
        if np.ndim(sd) == 0 else np.asarray(sd).ravel()
    if np.all(sd <= 0):
        return bool(np.all(np.abs(res) <= tol))
    if not len(pool.flat):
        return False
    z = np.abs(res / sd)
    t = tol / sd
    ap = np.abs(pool.flat)
    for i in range(len(z)):
        d = np.abs(ap - z[i])
        d[used] = np.inf
        j = int(np.argmin(d))
        if not d[j] <= t[i]:
            return False
        used[j] = True
    return True


class SGRef(object):
    def __init__(self, model, cfg):
        self.m = model
        self.cfg = cfg
        self.alg = cfg["alg"]
        self.t = 0
        n = model.names
        self.v = None              # momentum (None: not yet identified)
        self.aux = {k: np.zeros(model.shape[k]) for k in n}
        a = cfg.get("a", 0.0)
        self.alpha = {k: (np.full(model.shape[k], a) if cfg.get("vec", True)
                          else np.float64(a)) for k in n}
        self.init_pool = None

    # -- gradient-only algorithms
    def _langevin(self, q, qn, x, lr, pool):
        g = self.m.grad(q, x)
        ga = self.m.grad_abs(q, x)
        used = pool.fresh()
        new_aux = {}
        for k in self.m.names:
            if self.alg == "PSGLD":
                d, e = self.cfg["decay"], self.cfg["epsilon"]
                aux = d * self.aux[k] + (1 - d) * g[k] ** 2
                new_aux[k] = aux
                pre = 1.0 / (e + np.sqrt(aux))
                # relative error of the preconditioner from float32 gradients
                rel = 8 * EPS * (1 + pre * np.sqrt(1 - d) * ga[k] +
                                 pre * np.sqrt(aux))
            else:
                pre, rel = 1.0, 0.0
            drift = 0.5 * lr * pre * g[k]
            sd = np.sqrt(lr * pre) * np.ones(q[k].shape)
            res = qn[k] - q[k] - drift
            tol = 16 * EPS * (np.abs(q[k]) + np.abs(qn[k]) +
                              0.5 * lr * pre * ga[k] + 6 * sd) + \
                np.abs(drift) * rel + 6 * sd * rel + 1e-5 * sd
            if not match(res, sd, tol, pool, used):
                raise Violation(
                    "update", "%s iteration %d: latent %r moved by something "
                    "other than the documented update from the pre-iteration "
                    "values of all latents plus fresh noise" %
                    (self.alg, self.t, k), iteration=self.t,
                    residual=(res / sd).ravel()[:6].tolist())
        if self.alg == "PSGLD":
            self.aux = new_aux
        return "none"

    # -- momentum algorithms
    def _try(self, q, qn, x, lr, v, pool, used):
        """Explain with momentum v at the start; returns (new v, alpha, mk)."""
        cfg, m = self.cfg, self.m
        so = cfg["second_order"]
        q1 = {k: q[k] + 0.5 * v[k] for k in m.names} if so else q
        g, ga = m.grad(q1, x), m.grad_abs(q1, x)
        nv, nalpha, mk = {}, {}, {}
        for k in m.names:
            scale = np.abs(q[k]) + np.abs(qn[k]) + np.abs(v[k])
            verr = 8 * EPS * scale
            if self.alg == "SGHMC":
                al = np.float64(cfg["friction"])
                dh = np.exp(-0.5 * al)
                sd = np.sqrt(max(2 * (cfg["friction"] - cfg["beta"]) * lr, 0.0))
                a1 = None
            else:
                al = self.alpha[k]
                sd = np.sqrt(2 * cfg["a"] * lr)
                a1 = al
                if so:
                    k1 = v[k] ** 2 if cfg["vec"] else np.mean(v[k] ** 2)
                    a1 = al + 0.5 * cfg["tune_rate"] * (k1 - lr)
                    dh = np.exp(-0.5 * a1)
            if so:
                nv[k] = 2 * (qn[k] - q1[k])
                res = nv[k] / dh - dh * v[k] - lr * g[k]
                tol = verr * 2 / np.minimum(dh, 1.0) + \
                    16 * EPS * (lr * ga[k] + np.abs(nv[k] / dh) +
                                np.abs(dh * v[k]))
            else:
                nv[k] = qn[k] - q[k]
                res = nv[k] - (1 - al) * v[k] - lr * g[k]
                tol = verr + 16 * EPS * (lr * ga[k] + np.abs(nv[k]) +
                                         np.abs((1 - al) * v[k]))
            tol = tol * 2 + self.extra_tol + 1e-5 * sd
            if not match(res, sd * np.ones(res.shape), tol, pool, used):
                return None
            mean_k = nv[k] ** 2 if (self.alg == "SGNHT" and cfg["vec"]) \
                else np.mean(nv[k] ** 2)
            mk[k] = mean_k
            if self.alg == "SGNHT":
                nalpha[k] = (a1 + 0.5 * cfg["tune_rate"] * (mean_k - lr)) \
                    if so else al + cfg["tune_rate"] * (mean_k - lr)
        return nv, nalpha, mk

    def _momentum(self, q, qn, x, lr, pool):
        m = self.m
        self.extra_tol = 4e-7 * (1 + self.t)
        opts = []
        if self.v is not None:
            r = self._try(q, qn, x, lr, self.v, pool, pool.fresh())
            if r is not None:
                return "carried", r
        else:
            opts.append(("carried", self.init_pool, self.init_lr))
        opts.append(("resampled", pool, lr))
        for kind, src, slr in opts:
            if src is None:
                continue
            cands = [src.tensors(int(np.prod(m.shape[k])) if m.shape[k] else 1)
                     for k in m.names]
            for combo in itertools.islice(itertools.product(*cands), 20000):
                if len(set(combo)) < len(combo):
                    continue
                v = {k: np.sqrt(slr) * src.t[i].reshape(m.shape[k])
                     for k, i in zip(m.names, combo)}
                used = pool.fresh()
                if src is pool:
                    for i in combo:
                        used[pool.off[i]:pool.off[i + 1]] = True
                r = self._try(q, qn, x, lr, v, pool, used)
                if r is not None:
                    return kind, r
        return None, None

    def step(self, q, qn, x, lr, draws):
        """Returns 'none' | 'carried' | 'resampled'; raises Violation."""
        pool = Pool(draws)
        if self.alg in ("SGLD", "PSGLD"):
            out = self._langevin(q, qn, x, lr, pool)
            self.mk = None
        else:
            kind, r = self._momentum(q, qn, x, lr, pool)
            if kind is None:
                raise Violation(
                    "update", "%s iteration %d: no assignment of the recorded "
                    "draws explains the move as the documented update of all "
                    "latents from one pre-iteration state" % (self.alg, self.t),
                    iteration=self.t)
            self.v, na, self.mk = r
            if self.alg == "SGNHT":
                self.alpha = na
            out = kind
        self.t += 1
        return out
