"""Reference models of the distributions: parameters, construction, float64
log densities and Rosenblatt transforms (samples -> independent uniforms)."""
from . import tfenv  # noqa: F401
import numpy as np
import tensorflow as tf
import zhusuan as zs
from scipy import special, stats

D = zs.distributions


def q(x):
    return np.round(np.asarray(x, np.float64) * 64.0) / 64.0


def pick(g, shape, lo, hi):
    """parameter values exactly representable in float16"""
    return q(g.uniform(lo, hi, size=shape))


def mix(F0, F1, v):
    """randomised PIT of a discrete variable: F(x-1) + v (F(x) - F(x-1))"""
    return F0 + v * (F1 - F0)


def tril(g, batch, d):
    a = pick(g, batch + (d, d), -0.75, 0.75)
    a = np.tril(a, -1)
    i = np.arange(d)
    a[..., i, i] = pick(g, batch + (d,), 0.5, 1.5)
    return a


def solve(L, y):
    return np.linalg.solve(np.broadcast_to(L, y.shape[:-2] + L.shape[-2:]), y)


def stick(x, a):
    """Dirichlet(a) -> independent uniforms by stick breaking"""
    a = np.broadcast_to(a, x.shape)
    rest = np.cumsum(x[..., ::-1], -1)[..., ::-1]
    arest = np.cumsum(a[..., ::-1], -1)[..., ::-1]
    out = []
    for k in range(x.shape[-1] - 1):
        with np.errstate(all="ignore"):
            t = x[..., k] / rest[..., k]
        out.append(special.betainc(a[..., k], arest[..., k + 1],
                                   np.clip(np.nan_to_num(t), 0, 1)))
    return np.stack(out, -1)


class Fam(object):
    vdim = 0                 # number of value dimensions
    cont = True
    two = False              # two parameters with separate batch shapes
    dtypes = ("float16", "float32", "float64")
    vdtypes = ()             # sample dtypes of a discrete family
    reparam = False
    path = False
    check = True             # has check_numerics

    def params(self, g, sa, sb):
        """-> dict of numpy parameter arrays (sa, sb: batch shapes)"""
        raise NotImplementedError

    def make(self, p, kw):
        raise NotImplementedError

    def logpdf(self, x, p):
        raise NotImplementedError

    def pit(self, x, p, v):
        """-> array of uniforms, x.shape[:-vdim] + (components,)"""
        raise NotImplementedError

    def support(self, x, p):
        return np.isfinite(x)

    def inner(self, x, p):
        """magnitude of terms that cancel in a direct evaluation"""
        return 0.0


class Normal(Fam):
    two = reparam = path = True

    def __init__(self, how):
        self.how = how

    def params(self, g, sa, sb):
        return {"mean": pick(g, sa, -2, 2),
                self.how: pick(g, sb, 0.25, 2) if self.how == "std"
                else pick(g, sb, -1, 1)}

    def _s(self, p):
        return p["std"] if "std" in p else np.exp(p["logstd"])

    def make(self, p, kw):
        return D.Normal(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.norm.logpdf(x, p["mean"], self._s(p))

    def pit(self, x, p, v):
        return special.ndtr((x - p["mean"]) / self._s(p))[..., None]


class FoldNormal(Normal):
    def make(self, p, kw):
        return D.FoldNormal(**dict(p, **kw))

    def logpdf(self, x, p):
        m, s = p["mean"], self._s(p)
        with np.errstate(all="ignore"):
            return np.where(x >= 0, np.logaddexp(
                stats.norm.logpdf(x, m, s), stats.norm.logpdf(-x, m, s)),
                -np.inf)

    def inner(self, x, p):
        m, s = p["mean"], self._s(p)
        return 0.5 * ((x - m) / s) ** 2

    def pit(self, x, p, v):
        m, s = p["mean"], self._s(p)
        return np.where(x >= 0, special.ndtr((x - m) / s) -
                        special.ndtr((-x - m) / s), 0.0)[..., None]

    def support(self, x, p):
        return np.isfinite(x) & (x >= 0)


class Laplace(Fam):
    two = reparam = path = True

    def params(self, g, sa, sb):
        return {"loc": pick(g, sa, -2, 2), "scale": pick(g, sb, 0.25, 2)}

    def make(self, p, kw):
        return D.Laplace(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.laplace.logpdf(x, p["loc"], p["scale"])

    def pit(self, x, p, v):
        return stats.laplace.cdf(x, p["loc"], p["scale"])[..., None]


class Uniform(Fam):
    two = reparam = True

    def params(self, g, sa, sb):
        lo = pick(g, sa, -2, 1)
        return {"minval": lo, "maxval": lo.max() + pick(g, sb, 0.25, 2)
                if np.size(lo) else pick(g, sb, 1.25, 3)}

    def make(self, p, kw):
        return D.Uniform(**dict(p, **kw))

    def logpdf(self, x, p):
        a, b = p["minval"], p["maxval"]
        with np.errstate(all="ignore"):
            return np.where((x >= a) & (x <= b), -np.log(b - a), -np.inf)

    def pit(self, x, p, v):
        a, b = p["minval"], p["maxval"]
        return ((x - a) / (b - a))[..., None]

    def support(self, x, p):
        return (x >= p["minval"]) & (x < p["maxval"])


class Gamma(Fam):
    two = True

    def params(self, g, sa, sb):
        return {"alpha": pick(g, sa, 0.75, 5), "beta": pick(g, sb, 0.5, 3)}

    def make(self, p, kw):
        return D.Gamma(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.gamma.logpdf(x, p["alpha"], scale=1.0 / p["beta"])

    def pit(self, x, p, v):
        return special.gammainc(p["alpha"], x * p["beta"])[..., None]

    def support(self, x, p):
        return np.isfinite(x) & (x > 0)


class InverseGamma(Gamma):
    def make(self, p, kw):
        return D.InverseGamma(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.invgamma.logpdf(x, p["alpha"], scale=p["beta"])

    def pit(self, x, p, v):
        with np.errstate(all="ignore"):
            return special.gammaincc(p["alpha"], p["beta"] / x)[..., None]


class Beta(Fam):
    two = True

    def params(self, g, sa, sb):
        return {"alpha": pick(g, sa, 0.75, 4), "beta": pick(g, sb, 0.75, 4)}

    def make(self, p, kw):
        return D.Beta(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.beta.logpdf(x, p["alpha"], p["beta"])

    def pit(self, x, p, v):
        return special.betainc(p["alpha"], p["beta"], x)[..., None]

    def support(self, x, p):
        return (x >= 0) & (x <= 1)


class BinConcrete(Fam):
    reparam = path = True

    def params(self, g, sa, sb):
        return {"temperature": pick(g, (), 0.5, 2),
                "logits": pick(g, sa, -2, 2)}

    def make(self, p, kw):
        return D.BinConcrete(**dict(p, **kw))

    def logpdf(self, x, p):
        t, l = p["temperature"], p["logits"]
        with np.errstate(all="ignore"):
            lx, l1 = np.log(x), np.log1p(-x)
            z = t * (lx - l1) - l
            return np.log(t) - lx - l1 + z - 2 * np.logaddexp(0, z)

    def pit(self, x, p, v):
        with np.errstate(all="ignore"):
            return special.expit(p["temperature"] * special.logit(x) -
                                 p["logits"])[..., None]

    def support(self, x, p):
        return (x >= 0) & (x <= 1)


INTS = ("int16", "int32", "int64", "float16", "float32", "float64")


class Bernoulli(Fam):
    cont = check = False
    vdtypes = INTS

    def params(self, g, sa, sb):
        return {"logits": pick(g, sa, -2, 2)}

    def make(self, p, kw):
        return D.Bernoulli(**dict(p, **kw))

    def logpdf(self, x, p):
        return x * p["logits"] - np.logaddexp(0, p["logits"])

    def pit(self, x, p, v):
        p0 = special.expit(-p["logits"]) + 0 * x
        return np.where(x == 0, v * p0, p0 + v * (1 - p0))[..., None]

    def support(self, x, p):
        return (x == 0) | (x == 1)


class Categorical(Fam):
    cont = check = False
    dtypes = ("float32", "float64")
    vdtypes = ("int32", "int64", "float32", "float64")

    def params(self, g, sa, sb):
        return {"logits": pick(g, sa + (int(g.integers(2, 5)),), -1.5, 1.5)}

    def make(self, p, kw):
        return D.Categorical(**dict(p, **kw))

    @staticmethod
    def lp(p):
        return p["logits"] - special.logsumexp(p["logits"], -1, keepdims=True)

    def _at(self, a, x):
        b = np.broadcast_shapes(a.shape[:-1], x.shape)
        a, x = np.broadcast_to(a, b + a.shape[-1:]), np.broadcast_to(x, b)
        return np.take_along_axis(a, x.astype(int)[..., None], -1)[..., 0]

    def logpdf(self, x, p):
        return self._at(self.lp(p), x)

    def pit(self, x, p, v):
        pr = np.exp(self.lp(p))
        c = np.cumsum(pr, -1)
        return (self._at(c - pr, x) + v * self._at(pr, x))[..., None]

    def support(self, x, p):
        return (x == np.round(x)) & (x >= 0) & (x < p["logits"].shape[-1])


class Onehot(Categorical):
    vdim = 1
    dtypes = ("float32", "float64")
    vdtypes = INTS

    def make(self, p, kw):
        return D.OnehotCategorical(**dict(p, **kw))

    def logpdf(self, x, p):
        return Categorical.logpdf(self, x.argmax(-1), p)

    def pit(self, x, p, v):
        return Categorical.pit(self, x.argmax(-1), p, v)

    def support(self, x, p):
        return ((x == 0) | (x == 1)).all(-1) & (x.sum(-1) == 1)


class Poisson(Fam):
    cont = False
    vdtypes = INTS

    def params(self, g, sa, sb):
        return {"rate": pick(g, sa, 0.5, 8)}

    def make(self, p, kw):
        return D.Poisson(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.poisson.logpmf(x, p["rate"])

    def pit(self, x, p, v):
        return mix(stats.poisson.cdf(x - 1, p["rate"]),
                   stats.poisson.cdf(x, p["rate"]), v)[..., None]

    def support(self, x, p):
        return (x >= 0) & (x == np.round(x))


class Binomial(Fam):
    cont = False
    vdtypes = INTS

    def params(self, g, sa, sb):
        return {"logits": pick(g, sa, -2, 2),
                "n_experiments": int(g.integers(1, 7))}

    def make(self, p, kw):
        return D.Binomial(**dict(p, **kw))

    def logpdf(self, x, p):
        return stats.binom.logpmf(x, p["n_experiments"],
                                  special.expit(p["logits"]))

    def pit(self, x, p, v):
        n, pr = p["n_experiments"], special.expit(p["logits"])
        return mix(stats.binom.cdf(x - 1, n, pr), stats.binom.cdf(x, n, pr),
                   v)[..., None]

    def support(self, x, p):
        return (x >= 0) & (x <= p["n_experiments"]) & (x == np.round(x))


class Multinomial(Fam):
    @staticmethod
    def lp(p):
        return Categorical.lp(p)

    cont = check = False
    vdim = 1
    vdtypes = INTS

    def params(self, g, sa, sb):
        return {"logits": pick(g, sa + (int(g.integers(2, 5)),), -1.5, 1.5),
                "n_experiments": int(g.integers(1, 6))}

    def make(self, p, kw):
        return D.Multinomial(**dict(p, **kw))

    def logpdf(self, x, p):
        n = p["n_experiments"]
        return special.gammaln(n + 1) - special.gammaln(x + 1).sum(-1) + \
            (x * Categorical.lp(p)).sum(-1)

    def pit(self, x, p, v):
        pr = np.broadcast_to(np.exp(Categorical.lp(p)), x.shape)
        rest = np.cumsum(pr[..., ::-1], -1)[..., ::-1]
        left = p["n_experiments"] - np.cumsum(x, -1) + x
        out = []
        for k in range(x.shape[-1] - 1):
            pk = np.clip(pr[..., k] / rest[..., k], 0, 1)
            n = np.maximum(left[..., k], 0)
            lo = np.where(x[..., k] > 0, stats.binom.cdf(
                np.maximum(x[..., k] - 1, 0), n, pk), 0.0)
            out.append(mix(lo, stats.binom.cdf(x[..., k], n, pk), v[..., k]))
        return np.stack(out, -1)

    def support(self, x, p):
        return ((x >= 0) & (x == np.round(x))).all(-1) & \
            (x.sum(-1) == p["n_experiments"])


class Dirichlet(Fam):
    vdim = 1

    def params(self, g, sa, sb):
        return {"alpha": pick(g, sa + (int(g.integers(2, 5)),), 0.75, 3)}

    def make(self, p, kw):
        return D.Dirichlet(**dict(p, **kw))

    def logpdf(self, x, p):
        a = p["alpha"]
        with np.errstate(all="ignore"):
            return special.gammaln(a.sum(-1)) - special.gammaln(a).sum(-1) + \
                ((a - 1) * np.log(x)).sum(-1)

    def pit(self, x, p, v):
        return stick(x, p["alpha"])

    def support(self, x, p):
        return (x >= 0).all(-1) & (x <= 1).all(-1)


class ExpConcrete(Fam):
    vdim = 1
    reparam = path = True

    def params(self, g, sa, sb):
        return {"temperature": pick(g, (), 0.5, 2),
                "logits": pick(g, sa + (int(g.integers(2, 5)),), -1.5, 1.5)}

    def make(self, p, kw):
        return D.ExpConcrete(**dict(p, **kw))

    def _log(self, x):
        return x

    def logpdf(self, x, p):
        n = x.shape[-1]
        y = self._log(x)
        with np.errstate(all="ignore"):
            t = p["logits"] - p["temperature"] * y
            r = special.gammaln(n) + (n - 1) * np.log(p["temperature"]) + \
                t.sum(-1) - n * special.logsumexp(t, -1)
            return r - (y.sum(-1) if self._log(1.0) == 0.0 else 0.0)

    def pit(self, x, p, v):
        with np.errstate(all="ignore"):
            t = p["logits"] - p["temperature"] * self._log(x)
            t = t - t.max(-1, keepdims=True)
            w = np.exp(np.nan_to_num(t))
        return stick(w / w.sum(-1, keepdims=True), np.ones(x.shape[-1]))

    def support(self, x, p):
        return (x <= 0).all(-1) & ~np.isnan(x).any(-1)


class Concrete(ExpConcrete):
    def _log(self, x):
        with np.errstate(all="ignore"):
            return np.log(x)

    def make(self, p, kw):
        return D.Concrete(**dict(p, **kw))

    def support(self, x, p):
        return (x >= 0).all(-1) & (x <= 1).all(-1)


class MVN(Fam):
    vdim = 1
    reparam = path = True
    dtypes = ("float32", "float64")

    def params(self, g, sa, sb):
        d = int(g.integers(1, 4))
        return {"mean": pick(g, sa + (d,), -2, 2), "cov_tril": tril(g, sa, d)}

    def make(self, p, kw):
        return D.MultivariateNormalCholesky(**dict(p, **kw))

    def _e(self, x, p):
        return solve(p["cov_tril"], (x - p["mean"])[..., None])[..., 0]

    def logpdf(self, x, p):
        L = p["cov_tril"]
        ld = np.log(np.diagonal(L, axis1=-2, axis2=-1)).sum(-1)
        return stats.norm.logpdf(self._e(x, p)).sum(-1) - ld

    def pit(self, x, p, v):
        return special.ndtr(self._e(x, p))

    def support(self, x, p):
        return np.isfinite(x).all(-1)


class MatNormal(Fam):
    vdim = 2
    reparam = path = True
    dtypes = ("float32", "float64")

    def params(self, g, sa, sb):
        r, c = int(g.integers(1, 4)), int(g.integers(1, 4))
        return {"mean": pick(g, sa + (r, c), -2, 2), "u_tril": tril(g, sa, r),
                "v_tril": tril(g, sa, c)}

    def make(self, p, kw):
        return D.MatrixVariateNormalCholesky(**dict(p, **kw))

    def _e(self, x, p):
        y = solve(p["u_tril"], x - p["mean"])
        return solve(p["v_tril"], np.swapaxes(y, -1, -2))

    def logpdf(self, x, p):
        r, c = x.shape[-2:]
        lu = np.log(np.diagonal(p["u_tril"], axis1=-2, axis2=-1)).sum(-1)
        lv = np.log(np.diagonal(p["v_tril"], axis1=-2, axis2=-1)).sum(-1)
        return stats.norm.logpdf(self._e(x, p)).sum((-1, -2)) - \
            c * lu - r * lv

    def pit(self, x, p, v):
        e = self._e(x, p)
        return special.ndtr(e.reshape(e.shape[:-2] + (-1,)))

    def support(self, x, p):
        return np.isfinite(x).all((-1, -2))


FAMS = {
    "Normal.std": Normal("std"), "Normal.logstd": Normal("logstd"),
    "FoldNormal.std": FoldNormal("std"),
    "FoldNormal.logstd": FoldNormal("logstd"),
    "Laplace": Laplace(), "Uniform": Uniform(), "Gamma": Gamma(),
    "InverseGamma": InverseGamma(), "Beta": Beta(),
    "BinConcrete": BinConcrete(), "Bernoulli": Bernoulli(),
    "Categorical": Categorical(), "OnehotCategorical": Onehot(),
    "Poisson": Poisson(), "Binomial": Binomial(),
    "Multinomial": Multinomial(), "Dirichlet": Dirichlet(),
    "ExpConcrete": ExpConcrete(), "Concrete": Concrete(),
    "MultivariateNormalCholesky": MVN(),
    "MatrixVariateNormalCholesky": MatNormal(),
}


def tf_params(p, dtype, fed, feeds):
    """constants, NumPy arrays, numbers or lists, or placeholders (static shape
    known, partly, or unknown)"""
    out = {}
    for k, v in p.items():
        if isinstance(v, int):
            if fed.get(k):
                ph = tf.placeholder(tf.int32, [], name="par_" + k)
                feeds[ph] = v
                out[k] = ph
            else:
                out[k] = v
            continue
        a = np.asarray(v, dtype)
        how = fed.get(k)
        if how == "np":
            out[k] = a if a.ndim else a[()]
        elif how == "py":
            # a number or a list (of the default float type)
            out[k] = a.tolist() if dtype == "float32" else a
        elif how:
            sh = {"full": a.shape, "part": tuple(
                None if i == 0 else s for i, s in enumerate(a.shape)),
                "none": None}[how]
            ph = tf.placeholder(dtype, sh, name="par_" + k)
            feeds[ph] = a
            out[k] = ph
        else:
            out[k] = tf.constant(a)
    return out


DEFAULT = {"Normal": {"mean": 0.0}, "FoldNormal": {"mean": 0.0},
           "Uniform": {"minval": 0.0, "maxval": 1.0}}


def gen_omit(name, r, sc):
    """Parameters left at their documented defaults (then the others have the
    whole batch shape) -> names"""
    d = sorted(DEFAULT.get(name.split(".")[0], ()))
    if not d or r.random() >= 0.2:
        return []
    if len(d) == 2:
        d = d if not sc["batch"] and r.random() < 0.5 else [r.choice(d)]
    sc["sa"] = sc["sb"] = list(sc["batch"])
    sc["dtype"] = "float32"            # that of the default
    return d


def apply_omit(name, p, omit):
    d = DEFAULT.get(name.split(".")[0], {})
    p = dict(p)
    for k in omit:
        p[k] = np.zeros(()) + d[k]
    if omit == ["minval"]:
        p["maxval"] = np.abs(p["maxval"]) + 0.25
    elif omit == ["maxval"]:
        p["minval"] = 0.75 - np.abs(p["minval"])
    return p


METHOD = {
    "Normal": "normal", "FoldNormal": "fold_normal", "Laplace": "laplace",
    "Uniform": "uniform", "Gamma": "gamma", "InverseGamma": "inverse_gamma",
    "Beta": "beta", "BinConcrete": "bin_concrete", "Bernoulli": "bernoulli",
    "Categorical": "categorical", "OnehotCategorical": "onehot_categorical",
    "Poisson": "poisson", "Binomial": "binomial", "Multinomial": "multinomial",
    "Dirichlet": "dirichlet", "ExpConcrete": "exp_concrete",
    "Concrete": "concrete",
    "MultivariateNormalCholesky": "multivariate_normal_cholesky",
    "MatrixVariateNormalCholesky": "matrix_variate_normal_cholesky",
}


def draw(name, p, kw, n, via):
    """The distribution used directly, as a node of a net, or as an old-style
    node -> (distribution, samples, their log_prob)"""
    cls = name.split(".")[0]
    if via == "direct":
        d = FAMS[name].make(p, kw)
        x = d.sample(n)
        return d, x, d.log_prob(x)
    a = dict(p, **kw)
    if n is not None:
        a["n_samples"] = n
    bn = zs.BayesianNet()
    if via == "bn":
        node = getattr(bn, METHOD[cls])("node", **a)
    else:
        with bn:
            node = getattr(zs, cls)("node", **a)
    return node.dist, node.tensor, node.cond_log_p


def count_density(p, kw, x, kind, via):
    """log_prob of given counts: the total taken from them (kind "free"), or
    of one ordered sequence with these counts (kind "bag")"""
    a = dict({k: v for k, v in p.items() if k != "n_experiments"}, **kw)
    name, method = "Multinomial", "multinomial"
    if kind == "bag":
        name, method = "UnnormalizedMultinomial", "unnormalized_multinomial"
    else:
        a["n_experiments"] = None
    if via == "direct":
        d = getattr(D, name)(**a)
        return d.log_prob(x), d.prob(x)
    if via == "bn":
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            getattr(bn, method)("counts", **a)
            return bn
        node = model().observe(counts=x)["counts"]
    else:
        with zs.BayesianNet(observed={"counts": x}):
            node = getattr(zs, name)("counts", **a)
    return node.cond_log_p, node.dist.prob(x)
