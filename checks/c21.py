"""C21: distributions made with check_numerics=True report numeric faults of
their density instead of returning them, and raise nothing otherwise."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf
import zhusuan as zs

from sim.core import Violation
from sim.dists import FAMS, METHOD, tf_params
from sim.executor import HarnessError, SimSession

NAN, INF = "nan", "inf"
BAD = [0.0, -1.0, NAN, INF]
TINY = {"float32": 1e-30, "float64": 1e-200}
BIG = {"float32": 100.0, "float64": 800.0}
# (where, value, what it makes non-finite: l = log_prob, p = prob, x = a sample
# of the distribution).  Only the terms the library takes a logarithm,
# exponential, reciprocal or (log-)gamma function of; a NaN mean, say, is not
# among them.
_STD = [("std", v, "lp") for v in BAD + ["tiny"]]
_LOGSTD = [("logstd", NAN, "lpx"), ("logstd", "-inf", "lp"),
           ("logstd", "-big", "lp"), ("logstd", INF, "x"),
           ("logstd", "big", "x")]
FAULTS = {
    "Normal.std": _STD, "FoldNormal.std": _STD,
    "Normal.logstd": _LOGSTD, "FoldNormal.logstd": _LOGSTD,
    "Laplace": [("scale", v, "lp") for v in BAD],
    "Uniform": [("maxval", "minval", "lp"), ("maxval", "<minval", "l"),
                ("maxval", NAN, "lp"), ("minval", NAN, "lp"),
                ("given", "below", "l"), ("given", "above", "l"),
                ("given", "maxval", "l"), ("given", NAN, "l")],
    "Gamma": [(k, v, "lp") for k in ("alpha", "beta", "given") for v in BAD],
    "InverseGamma": [(k, v, "lp") for k in ("alpha", "beta", "given")
                     for v in BAD],
    "Beta": [(k, v, "lp") for k in ("alpha", "beta") for v in BAD] +
            [("given", v, "lp") for v in (0.0, 1.0, -0.5, 1.5, NAN, INF)],
    "Poisson": [("rate", v, "lp") for v in BAD] + [("given", -1, "lp")],
    "Binomial": [("given", -1, "lp"), ("given", "n+1", "lp")],
    "BinConcrete": [("temperature", v, "lp") for v in BAD] +
                   [("given", v, "lp") for v in (0.0, 1.0, -0.5, 1.5, NAN)],
    "ExpConcrete": [("temperature", v, "lp") for v in BAD],
    "Concrete": [("temperature", v, "lp") for v in BAD] +
                [("given", v, "lp") for v in (0.0, -0.5, NAN, INF)],
    "Dirichlet": [("alpha", v, "lp") for v in BAD] +
                 [("given", v, "lp") for v in (0.0, -0.5, NAN)],
    "MultivariateNormalCholesky": [("cov_tril", v, "lp") for v in BAD],
    "MatrixVariateNormalCholesky": [(k, v, "lp") for k in ("u_tril", "v_tril")
                                    for v in BAD],
}
NAMES = sorted(FAULTS)
# sampled with normal or uniform draws: any parameter value can be sampled from
DRAWN = ("Normal.std", "Normal.logstd", "FoldNormal.std", "FoldNormal.logstd",
         "Laplace", "BinConcrete", "ExpConcrete", "Concrete")
# terms of the faults above through which a sample cannot be formed either
FETCH = {"direct": ["log_prob", "prob"], "sampled": ["log_prob", "x"],
         "bn": ["node", "joint", "query"], "old": ["node", "joint", "query"],
         "meta": ["node", "joint"]}
KEYS = ("mean", "std", "logstd", "loc", "scale", "minval", "maxval", "alpha",
        "beta", "logits", "rate", "cov_tril", "u_tril", "v_tril")


def gen(seed, tier):
    r = random.Random("c21-%d" % seed)
    name = NAMES[seed % len(NAMES)]
    f = FAMS[name]
    batch = r.choice([[], [1], [2], [3], [2, 3], [3, 1]])
    sa, sb = list(batch), list(batch)
    if f.two and batch:
        mode = r.choice(["same", "a-scalar", "b-scalar", "ones"])
        if mode == "a-scalar":
            sa = []
        elif mode == "b-scalar":
            sb = []
        elif mode == "ones":
            sb = [1] * len(batch)
    via = r.choice(["direct", "direct", "bn", "bn", "old", "meta"] +
                   (["sampled", "sampled"] if name in DRAWN else []))
    its = []
    for _ in range(r.randrange(2, 6)):
        w = r.random()
        f1 = f2 = None
        if w < 0.6:
            f1 = {"n": r.randrange(len(FAULTS[name])), "at": r.random()}
        if w > 0.5 and r.random() < 0.4:
            f2 = {"n": r.randrange(len(_STD)), "at": r.random()}
        its.append({"fault": f1, "other": f2, "fetch": r.choice(FETCH[via])})
    return {"seed": seed, "fam": name, "batch": batch, "sa": sa, "sb": sb,
            "dtype": r.choice(["float32", "float32", "float64"]),
            "vdtype": r.choice([None, "float32", "int64"])
            if f.vdtypes else None,
            "shape": r.choice(["full", "full", "part", "none"]),
            "group": min(len(batch), r.choice([0, 0, 1, 2])),
            "check": r.choice([True, True, True, False, None]),
            "other": r.choice([None, True, False]),
            "reparam": r.choice([None, False]) if f.reparam else None,
            "path": f.path and r.random() < 0.2, "via": via, "iters": its,
            "pseed": r.getrandbits(30),
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}


def shrink(sc):
    for i in range(len(sc["iters"])):
        if len(sc["iters"]) > 1:
            c = copy.deepcopy(sc)
            del c["iters"][i]
            yield c
    for i, it in enumerate(sc["iters"]):
        for k in ("fault", "other"):
            if it[k]:
                c = copy.deepcopy(sc)
                c["iters"][i][k] = None
                yield c
    for k, v in (("group", 0), ("shape", "full"), ("dtype", "float32"),
                 ("vdtype", None), ("path", False), ("reparam", None),
                 ("other", None)):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    if sc["batch"]:
        c = copy.deepcopy(sc)
        c["batch"] = c["sa"] = c["sb"] = []
        c["group"] = 0
        yield c


def values(name, g, p, batch):
    """a value well inside the support, for every batch element"""
    b = tuple(batch)
    last = {k: np.shape(v)[-1:] for k, v in p.items()}
    base = name.split(".")[0]
    if base in ("Normal", "Laplace"):
        return g.normal(size=b)
    if base == "FoldNormal":
        return np.abs(g.normal(size=b)) + 0.1
    if base == "Uniform":
        u = g.uniform(0.2, 0.8, size=b)
        return p["minval"] + u * (p["maxval"] - p["minval"])
    if base in ("Gamma", "InverseGamma"):
        return np.exp(g.normal(size=b) * 0.5)
    if base in ("Beta", "BinConcrete"):
        return g.uniform(0.1, 0.9, size=b)
    if base == "Poisson":
        return g.integers(0, 7, size=b)
    if base == "Binomial":
        return g.integers(0, p["n_experiments"] + 1, size=b)
    if base in ("Dirichlet", "Concrete", "ExpConcrete"):
        k = last["alpha" if base == "Dirichlet" else "logits"]
        v = g.uniform(0.2, 1.0, size=b + k)
        v = v / v.sum(-1, keepdims=True)
        return np.log(v) if base == "ExpConcrete" else v
    return g.normal(size=b + np.shape(p["mean"])[len(batch):])


def inject(name, fault, p, x, dt, table=None):
    """-> parameters and value with one element replaced, what becomes
    non-finite"""
    where, v, kinds = (table or FAULTS[name])[fault["n"]]
    p = dict(p)
    if where == "given":
        a = x = np.array(x)
    else:
        a = p[where] = np.array(p[where])
    if a.size == 0:
        return p, x, ""
    if where.endswith("tril"):
        k = a.shape[-1]
        i = int(fault["at"] * (a.size // k)) % max(a.size // k, 1)
        j = i % k
        idx = np.unravel_index((i // k) * k * k + j * k + j, a.shape)
    else:
        idx = np.unravel_index(int(fault["at"] * a.size), a.shape)
    if v == "tiny":
        v = TINY[dt]
    elif v in ("big", "-big"):
        v = BIG[dt] * (-1 if v[0] == "-" else 1)
    elif v == "n+1":
        v = p["n_experiments"] + 1
    elif name == "Uniform" and isinstance(v, str) and v != NAN:
        lo, hi = float(np.max(p["minval"])), float(np.min(p["maxval"]))
        big = np.broadcast_to(p["maxval"], np.shape(x))
        if v == "minval":
            # every pair equal, so that broadcasting keeps one of them so
            p["minval"] = np.full_like(p["minval"], p["minval"].flat[0])
            v = p["minval"].flat[0]
            a = p["maxval"] = np.array(p["maxval"])
        elif v == "<minval":
            v = float(np.min(p["minval"])) - 1.0
        elif v == "below":
            v = float(np.min(p["minval"])) - 1.0
        elif v == "above":
            v = float(np.max(p["maxval"])) + 1.0
        else:
            v = big[idx] if np.ndim(x) else float(hi)
    a[idx] = float(v) if isinstance(v, str) else v
    return p, x, kinds


def solver(p):
    """a singular factor, which the solver refuses by itself"""
    return any(k.endswith("tril") and np.any(np.diagonal(
        v, axis1=-2, axis2=-1) == 0) for k, v in p.items()
        if not isinstance(v, int))


class Graph(object):
    def __init__(self, sc, ctx, p, x, q, y):
        name, f = sc["fam"], FAMS[sc["fam"]]
        cls = name.split(".")[0]
        dt = sc["dtype"]
        self.feeds = {}
        self.g = tf.Graph()
        with self.g.as_default():
            fed = {k: sc["shape"] for k in KEYS}
            fed["temperature"] = "full"
            self.tp = tp = tf_params(p, dt, fed, self.feeds)
            kw = {"group_ndims": sc["group"]}
            if sc["check"] is not None:
                kw["check_numerics"] = sc["check"]
            if sc["reparam"] is not None:
                kw["is_reparameterized"] = sc["reparam"]
            if sc["path"]:
                kw["use_path_derivative"] = True
            vdt = dt
            if f.vdtypes:
                vdt = sc["vdtype"] or "int32"
                kw["dtype"] = tf.as_dtype(vdt)
            self.vdt = vdt
            self.given = given = tf.placeholder(vdt, np.shape(x), name="given")
            a = dict(tp, **kw)
            self.std = std = tf.placeholder(dt, np.shape(q), name="std")
            self.y = tf.placeholder(dt, np.shape(y), name="y")
            other = {"mean": tf.zeros([], dt), "std": std}
            if sc["other"] is not None:
                other["check_numerics"] = sc["other"]
            via = sc["via"]
            T = {}
            if via in ("direct", "sampled"):
                d = ctx.lib(f.make, tp, kw)
                if via == "direct":
                    T["log_prob"] = ctx.lib(d.log_prob, given)
                    T["prob"] = ctx.lib(d.prob, given)
                else:
                    T["x"] = ctx.lib(d.sample, 2)
                    T["log_prob"] = ctx.lib(d.log_prob, T["x"])
            else:
                obs = {"a": given, "b": self.y}

                def model(bn):
                    if via == "old":
                        zs.Normal("b", **other)
                        return getattr(zs, cls)("a", **a)
                    bn.normal("b", **other)
                    return getattr(bn, METHOD[cls])("a", **a)

                if via == "meta":
                    @zs.meta_bayesian_net(scope="m", reuse_variables=True)
                    def build():
                        bn = zs.BayesianNet()
                        model(bn)
                        return bn
                    net = ctx.lib(lambda: build().observe(**obs))
                    T["node"] = ctx.lib(lambda: net.get("a").cond_log_p)
                    T["joint"] = ctx.lib(net.log_joint)
                else:
                    net = zs.BayesianNet(observed=obs)
                    if via == "old":
                        with net:
                            node = ctx.lib(model, net)
                        T["joint"] = tf.add_n([tf.reduce_sum(t) for t in
                                               net.local_log_prob(["a", "b"])])
                        T["query"] = ctx.lib(net.local_log_prob, "a")
                    else:
                        node = ctx.lib(model, net)
                        T["joint"] = tf.add_n([
                            tf.reduce_sum(t) for t in
                            net.cond_log_prob(["a", "b"])])
                        T["query"] = ctx.lib(net.cond_log_prob, "a")
                    T["node"] = ctx.lib(lambda: node.cond_log_p)
            if via == "meta":
                T["joint"] = tf.reduce_sum(T["joint"])
            self.T = T


def run(sc, ctx):
    name, f = sc["fam"], FAMS[sc["fam"]]
    dt = sc["dtype"]
    g = np.random.default_rng(sc["pseed"])
    p = {k: v if isinstance(v, int) else np.asarray(v, dt) for k, v in
         f.params(g, tuple(sc["sa"]), tuple(sc["sb"])).items()}
    x = values(name, g, p, sc["batch"])
    # a second node, whose log density adds to the joint one by broadcasting
    shp = tuple(sc["batch"])[:len(sc["batch"]) - sc["group"]]
    q = np.asarray(g.uniform(0.5, 1.5, size=shp), dt)
    y = np.asarray(g.normal(size=shp), dt)
    G = Graph(sc, ctx, p, x, q, y)
    s = SimSession(G.g, sc["seed"], ctx.sched())
    for i, it in enumerate(sc["iters"]):
        P, X, kinds = p, np.asarray(x).astype(G.vdt), ""
        Q, okind = q, ""
        singular = False
        if it["fault"]:
            P, X, kinds = inject(name, it["fault"], p, X, dt)
            singular = solver(P)
        if it["other"]:
            R, _, okind = inject("Normal.std", it["other"], {"std": q}, None,
                                 dt, _STD)
            Q = R["std"]
        what = it["fetch"]
        op = {"prob": "p", "x": "x"}.get(what, "l")
        has_b = what == "joint"
        where = FAULTS[name][it["fault"]["n"]][:2] if it["fault"] else None
        if sc["via"] == "sampled" and where and where[0] == "given":
            X, kinds, where = np.asarray(x).astype(G.vdt), "", None
        hit_a = bool(where) and sc["check"] is True and op in kinds
        if sc["via"] == "sampled" and what == "log_prob" and \
                sc["check"] is True and "x" in kinds:
            hit_a = True
        hit_b = has_b and bool(it["other"]) and sc["other"] is True and \
            bool(okind)
        # a fault outside the table for this quantity is not judged
        gray = bool(where) and sc["check"] is True and not hit_a
        if singular:
            gray = True
        fd = {ph: G_v for ph, G_v in G.feeds.items()}
        for k, t in G.tp.items():
            if isinstance(t, tf.Tensor) and t in G.feeds:
                fd[t] = P[k]
        if what != "x" and sc["via"] != "sampled":
            fd[G.given] = X
        if has_b:
            fd[G.std], fd[G.y] = Q, y
        err = out = None
        try:
            out = s.run(G.T[what], fd)
        except tf.errors.OpError as e:
            err = e
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("crash", "%s: a run raises %s: %s"
                            % (name, type(e).__name__, e), fam=name)
        if it["fault"]:
            ctx.faults["%s.%s=%s" % ((name,) + where) if where else
                       "none"] += 1
        if it["other"] and has_b:
            ctx.faults["second node"] += 1
        desc = "%s (check_numerics=%s, %s of %s, %s)" % (
            name, sc["check"], what, sc["via"],
            "%s = %s in one element" % where if where else "no fault")
        if hit_a or hit_b:
            ctx.probes["must-raise"] += 1
            if err is None:
                raise Violation(
                    "unreported", "%s: iteration %d returns %s instead of "
                    "reporting the numeric fault%s"
                    % (desc, i, np.asarray(out).ravel()[:4], "" if hit_a else
                       " of its second node"), fam=name)
            continue
        if gray:
            ctx.probes["not-judged"] += 1
            continue
        ctx.probes["must-not-raise"] += 1
        if err is not None:
            raise Violation("false-report", "%s: iteration %d raises %s"
                            % (desc, i, str(err)[:200]), fam=name)
        if where or (has_b and it["other"]) or what == "x":
            continue
        if sc["via"] == "sampled":
            if not np.isfinite(out).all():
                raise Violation("value", "%s: iteration %d is %s"
                                % (desc, i, np.asarray(out).ravel()[:4]))
            continue
        pf = {k: v if isinstance(v, int) else v.astype(np.float64)
              for k, v in p.items()}
        xf = np.asarray(X, np.float64)
        ref = np.asarray(f.logpdf(xf, pf))
        mag = np.abs(ref) + 1.0 + f.inner(xf, pf)
        ref, mag = np.broadcast_arrays(ref, mag)
        ax = tuple(range(ref.ndim - sc["group"], ref.ndim))
        ref, mag = ref.sum(ax), mag.sum(ax)
        if what == "joint":
            yl = -0.5 * np.log(2 * np.pi) - np.log(q.astype(np.float64)) - \
                0.5 * (y.astype(np.float64) / q) ** 2
            if sc["via"] == "meta":
                ref, mag = ref + yl, mag + np.abs(yl)
                ref, mag = ref.sum(), mag.sum()
            else:
                ref, mag = ref.sum() + yl.sum(), mag.sum() + np.abs(yl).sum()
        elif what == "prob":
            ref = np.exp(ref)
            mag = mag * ref
        rt = {"float32": 5e-4, "float64": 1e-8}[dt]
        out = np.asarray(out, np.float64)
        if out.shape != np.shape(ref) or not np.all(
                np.abs(out - ref) <= rt * mag + 1e-9):
            raise Violation("value", "%s: iteration %d is %s, should be %s"
                            % (desc, i, out.ravel()[:4],
                               np.ravel(ref)[:4]), fam=name)
        ctx.note(i, float(np.sum(out)))
