"""C12: samples follow the density that log_prob reports."""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf

from sim.core import Violation
from sim.dists import (FAMS, apply_omit, count_density, draw, gen_omit,
                       tf_params)
from sim.executor import SimSession

Z = 7.8                      # two-sided tail below 1e-14 per statistic
LN = np.log(2e14)
SLACK = {"float16": 0.02, "float32": 0.002, "float64": 1e-5}


def gen(seed, tier):
    r = random.Random("c12-%d" % seed)
    name = sorted(FAMS)[seed % len(FAMS)]
    f = FAMS[name]
    total = 20000 if tier == "quick" else 60000
    layout = r.choice(["n", "n", "n", "batch", "none"])
    small = r.choice([[], [], [1], [2], [3], [2, 3], [3, 1], [1, 2]])
    if layout == "n":
        size = int(np.prod(small)) if small else 1
        n = max(2000, total // size)
        batch = small
    else:
        k = r.choice([1, 2, 3]) if layout == "batch" else None
        per = total // (k or 1)
        batch = r.choice([[per], [per // 4, 4], [4, per // 4],
                          [2, per // 6, 3]])
        n = k
    sa, sb = list(batch), list(batch)
    if f.two and batch:
        # the two parameters broadcast against each other
        mode = r.choice(["same", "a-scalar", "b-scalar", "cross", "suffix"])
        if mode == "a-scalar":
            sa = []
        elif mode == "b-scalar":
            sb = []
        elif mode == "cross":
            sa = [b if i % 2 == 0 else 1 for i, b in enumerate(batch)]
            sb = [b if i % 2 == 1 else 1 for i, b in enumerate(batch)]
            if len(batch) == 1:
                sb = [1]
        elif mode == "suffix":
            sb = batch[1:]
    fed = {}
    if r.random() < 0.5:
        for k in ("mean", "std", "logstd", "loc", "scale", "minval", "maxval",
                  "alpha", "beta", "temperature", "logits", "rate",
                  "n_experiments", "cov_tril", "u_tril", "v_tril"):
            if r.random() < 0.5:
                fed[k] = r.choice(["full", "part", "none"])
    if "temperature" in fed:
        fed["temperature"] = "full"
    dts = [d for d in ("float32", "float32", "float32", "float64", "float16")
           if d in f.dtypes]
    sc = {"seed": seed, "fam": name, "n": n, "batch": batch, "sa": sa,
          "sb": sb, "dtype": r.choice(dts),
          "vdtype": r.choice([None] + list(f.vdtypes)) if f.vdtypes else None,
          "nfed": n is not None and r.random() < 0.4, "fed": fed,
          "group": r.choice([0, 0, 1, 2]),
          "check": f.check and r.random() < 0.2,
          "reparam": r.choice([None, True, False]) if f.reparam else None,
          "pseed": r.getrandbits(30),
          "via": r.choice(["direct", "direct", "bn", "bn", "old"]),
          "sched": {"kind": "seed", "seed": r.getrandbits(40)}}
    sc["group"] = min(sc["group"], len(batch))
    if sc["dtype"] == "float16" and layout != "n":
        sc["group"] = 0
    if sc["vdtype"] == "float16" and name in ("Poisson",):
        sc["vdtype"] = None
    if sc["dtype"] == "float16" or name in ("BinConcrete", "Beta", "Concrete",
                                            "Dirichlet"):
        # a sample may round to the end of its support, which the user asked
        # to be told about
        sc["check"] = False
    r2 = random.Random("c12-omit-%d" % seed)
    sc["omit"] = gen_omit(name, r2, sc)
    sc["nogroup"] = sc["group"] == 0 and r2.random() < 0.5
    sc["gfed"] = r2.choice([None] * 6 + ["tensor", "fed"])
    if name == "Multinomial":
        sc["norm"] = r2.choice([None, True, False])
        sc["counts"] = r2.choice(["free", "bag"])
    r4 = random.Random("c12-python-%d" % seed)
    if r4.random() < 0.3:
        # parameters given as NumPy arrays, numbers or lists
        for k in f.params(np.random.default_rng(0), (), ()):
            if k not in fed and k != "n_experiments" and r4.random() < 0.7:
                fed[k] = r4.choice(["np", "py"])
    r3 = random.Random("c12-given-%d" % seed)
    if (batch or n is not None) and r3.random() < 0.5:
        # log_prob at a value of fewer or more dimensions than a sample
        if name == "Uniform":
            # another element's value may lie outside this one's support
            sc["check"] = False
        sc["given"] = [r3.choice(["row", "row", "one", "lead"]),
                       r3.choice(["full", "part", "none"])]
    return sc


def shrink(sc):
    if sc.get("counts") and sc["norm"]:
        c = copy.deepcopy(sc)
        c["norm"] = None
        yield c
    if sc.get("given"):
        c = copy.deepcopy(sc)
        c["given"] = None
        yield c
    for k, v in (("via", "direct"), ("fed", {}), ("nfed", False), ("group", 0), ("check", False),
                 ("vdtype", None), ("reparam", None), ("dtype", "float32")):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c


def signature(sc):
    return "%s|%s|%s|%s|%s|%s" % (sc["fam"], sc["n"], sc["batch"], sc["sa"],
                                  sc["dtype"], sc["pseed"])


def build(sc, ctx):
    f = FAMS[sc["fam"]]
    g = np.random.default_rng(sc["pseed"])
    p = f.params(g, tuple(sc["sa"]), tuple(sc["sb"]))
    p = apply_omit(sc["fam"], p, sc["omit"])
    if sc.get("norm") is False:
        p["logits"] = f.lp(p)
    feeds = {}
    graph = tf.Graph()
    with graph.as_default():
        tp = tf_params({k: v for k, v in p.items() if k not in sc["omit"]},
                       sc["dtype"], sc["fed"], feeds)
        kw = {} if sc["nogroup"] else {"group_ndims": sc["group"]}
        if kw and sc.get("gfed"):
            if sc["gfed"] == "fed":
                kw["group_ndims"] = tf.placeholder(tf.int32, [], name="g")
                feeds[kw["group_ndims"]] = sc["group"]
            else:
                kw["group_ndims"] = tf.constant(sc["group"])
        if sc["vdtype"]:
            kw["dtype"] = tf.as_dtype(sc["vdtype"])
        if sc["check"]:
            kw["check_numerics"] = True
        if sc["reparam"] is not None:
            kw["is_reparameterized"] = sc["reparam"]
        n = sc["n"]
        if sc["nfed"]:
            ph = tf.placeholder(tf.int32, [], name="n")
            feeds[ph] = n
            n = ph
        if sc.get("norm") is not None:
            kw["normalize_logits"] = sc["norm"]
        dist, x, lp = ctx.lib(draw, sc["fam"], tp, kw, n, sc["via"])
        pr = ctx.lib(dist.prob, x)
        alt = ctx.lib(count_density, tp, kw, x, sc["counts"], sc["via"]) \
                if sc.get("counts") else ()
        shapes = [ctx.lib(lambda: d) for d in (dist.batch_shape,
                                               dist.value_shape)]
        static = [dist.get_batch_shape(), dist.get_value_shape()]
        gv = None
        if sc.get("given"):
            how, known = sc["given"]
            nd = len(sc["batch"]) + (sc["n"] is not None) + f.vdim
            nd += {"row": -1, "one": 0, "lead": 1}[how]
            # sizes of the value's last axes are those of the samples
            sh = x.get_shape()
            last = [None] * nd if sh.ndims is None else \
                (sh.as_list()[1:] if how == "row" else
                 [1] + sh.as_list()[1 if how == "one" else 0:])
            ph = tf.placeholder(dist.dtype, {
                "full": last, "part": [None] * nd, "none": None}[known],
                name="given")
            gv = [ph, ctx.lib(dist.log_prob, ph), ctx.lib(dist.prob, ph)]
    return f, p, graph, feeds, x, lp, pr, alt, shapes, static, gv


def run(sc, ctx):
    f, p, graph, feeds, x, lp, pr, alt, shapes, static, gv = build(sc, ctx)
    # what the parameters are in the dtype used
    p = {k: v if isinstance(v, int) else
         np.asarray(v, sc["dtype"]).astype(np.float64) for k, v in p.items()}
    s = SimSession(graph, sc["seed"], ctx.sched())
    xv, lpv, prv, av, shv = ctx.lib(
        s.run, [x, lp, pr, list(alt), shapes], feeds)
    judge(sc, ctx, f, p, xv, lpv, prv)
    for what, got, st, want in (
            ("batch_shape", shv[0], static[0], list(sc["batch"])),
            ("value_shape", shv[1], static[1],
             list(np.shape(xv)[np.ndim(xv) - f.vdim:]))):
        if list(got) != want or not st.is_compatible_with(want):
            raise Violation("shape", "%s: %s is %s (static: %s) where the "
                            "samples have %s" % (sc["fam"], what, list(got),
                                                 st, want))
    if gv:
        how = sc["given"][0]
        xg = xv[0] if how == "row" else xv[:1] if how == "one" else xv[None]
        lpg, prg = ctx.lib(s.run, gv[1:], dict(
            list(feeds.items()) + [(gv[0], xg)]))
        ctx.probes["given-" + how] += 1
        density(sc, f, p, np.asarray(xg, np.float64), lpg, prg,
                "a given value (%s)" % how)
    if alt:
        counts(sc, ctx, f, p, np.asarray(xv, np.float64),
               np.asarray(av[0], np.float64), np.asarray(av[1], np.float64))


def counts(sc, ctx, f, p, x, lp, pr):
    """The densities of given counts that cannot be sampled from."""
    lw = (x * f.lp(p)).sum(-1)
    want = lw if sc["counts"] == "bag" else f.logpdf(x, p)
    for _ in range(sc["group"]):
        want = want.sum(-1)
    half = "float16" in (sc["dtype"], sc["vdtype"])
    rt = {"float16": 5e-2, "float32": 5e-4, "float64": 1e-8}[sc["dtype"]]
    mag = np.abs(want) + np.prod(x.shape[x.ndim - 1 - sc["group"]:])
    ctx.probes["counts-" + sc["counts"]] += 1
    if lp.shape != want.shape:
        raise Violation("density-shape", "log_prob of counts (%s) has shape "
                        "%s, expected %s" % (sc["counts"], lp.shape,
                                             want.shape))
    if half and sc["group"]:
        return
    bad = ~(np.abs(lp - want) <= rt * mag + (0.1 if half else 0))
    bad |= ~(np.abs(pr - np.exp(lp)) <= (rt * mag + (0.1 if half else 0)) *
             np.exp(lp) + 1e-6) & (np.abs(want) < 20)
    if half:
        bad &= mag < 8
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation("density", "counts (%s, normalize_logits=%s): log_prob "
                        "%r, prob %r at %s, should be %r"
                        % (sc["counts"], sc["norm"], float(lp[i]),
                           float(pr[i]), list(map(int, i)), float(want[i])),
                        fam=sc["fam"])


def judge(sc, ctx, f, p, xraw, lpv, prv):
    name = sc["fam"]
    want = (() if sc["n"] is None else (sc["n"],)) + tuple(sc["batch"])
    x = np.asarray(xraw, np.float64)
    if x.shape[:x.ndim - f.vdim] != want:
        raise Violation("shape", "%s: samples have shape %s, expected %s + "
                        "value shape" % (name, x.shape, want))
    ok = f.support(x, p)
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        raise Violation("support", "%s: sample %r at %s is outside the support"
                        % (name, x[tuple(i)].tolist(), i.tolist()))
    half = sc["dtype"] == "float16" or (f.cont is False and
                                        sc["vdtype"] == "float16")
    density(sc, f, p, x, lpv, prv, "the samples")
    # ---- uniformity of the Rosenblatt transform
    g = np.random.default_rng([sc["seed"] & 0xFFFFFFFF, 12])
    vshape = x.shape if f.vdim == 1 and name == "Multinomial" else \
        x.shape[:x.ndim - f.vdim]
    u = f.pit(x, p, g.random(vshape))
    u = np.broadcast_to(u, want + u.shape[-1:])
    if u.size < 500:
        raise AssertionError("too few samples")
    slack = SLACK[sc["dtype"]]
    if half:
        slack = max(slack, SLACK["float16"])
    uniform(name, "all samples", u.ravel(), slack)
    ctx.stats["samples"] += u.size
    if f.cont and not half:
        reused(name, u.ravel())
    for ax in range(u.ndim):
        k = u.shape[ax]
        if 2 <= k <= 8 and u.size // k >= 1000:
            for i in range(k):
                uniform(name, "axis %d index %d" % (ax, i),
                        np.take(u, i, ax).ravel(), slack)
                ctx.stats["slices"] += 1
        if k >= 2:
            lags = {1, int(g.integers(1, k))}
            for lag in sorted(lags):
                a = np.take(u, range(k - lag), ax)
                b = np.take(u, range(lag, k), ax)
                if a.size >= 500:
                    indep(name, "axis %d lag %d" % (ax, lag), a.ravel(),
                          b.ravel(), half)
                    ctx.stats["pairs"] += 1
                if f.cont and not half and ax < u.ndim - 1 and a.size >= 200:
                    # exact ties between continuous samples
                    t = float(np.mean(a == b))
                    if t > 0.02:
                        raise Violation(
                            "independence", "%s: %.0f%% of the samples along "
                            "axis %d at lag %d are identical"
                            % (name, 100 * t, ax, lag), fam=name)


def density(sc, f, p, x, lpv, prv, where):
    """reported (log) density at x"""
    name = sc["fam"]
    half = sc["dtype"] == "float16" or (f.cont is False and
                                        sc["vdtype"] == "float16")
    ref = f.logpdf(x, p)
    fin = np.isfinite(ref)
    grp = sc["group"]
    axes = tuple(range(ref.ndim - grp, ref.ndim))
    mag = np.abs(np.where(fin, ref, 0.0)) + 1.0 + f.inner(x, p)
    tot = np.where(fin, ref, 0.0).sum(axes) if grp else np.where(fin, ref, 0.)
    scale = mag.sum(axes) if grp else mag
    good = fin.all(axes) if grp else fin
    lpv = np.asarray(lpv, np.float64)
    if lpv.shape != tot.shape:
        raise Violation("density-shape", "%s: log_prob of %s has "
                        "shape %s, expected %s" % (name, where, lpv.shape,
                                                   tot.shape))
    rt = {"float16": 3e-2, "float32": 5e-4, "float64": 1e-8}[sc["dtype"]]
    if not (half and grp):
        bad = good & ~(np.abs(lpv - tot) <= rt * scale +
                       (0.1 if half else 0.0))
        # tails: float16 cannot hold the intermediate terms
        if half:
            bad = bad & (mag < 6)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation("density", "%s: log_prob reports %r at %s where "
                            "the density of the sampled distribution is %r"
                            % (name, float(lpv[i]), list(map(int, i)),
                               float(tot[i])), fam=name)
        prv = np.asarray(prv, np.float64)
        sel = good & (np.abs(tot) < 20) & np.isfinite(lpv)
        bad = sel & ~(np.abs(prv - np.exp(lpv)) <=
                      (rt * scale + (0.1 if half else 0)) * np.exp(lpv) + 1e-6)
        if half:
            bad = bad & (mag < 6)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation("prob", "%s: prob is %r where exp(log_prob) is %r"
                            % (name, float(prv[i]), float(np.exp(lpv[i]))))


def uniform(name, where, u, slack):
    n = u.size
    s = np.sort(u)
    i = np.arange(1, n + 1) / n
    d = max(np.abs(i - s).max(), np.abs(s - (i - 1.0 / n)).max())
    lim = np.sqrt(LN / (2.0 * n)) + slack
    if not d <= lim:
        raise Violation("distribution", "%s (%s): samples do not follow "
                        "exp(log_prob): Kolmogorov distance %.4f over %d "
                        "samples (limit %.4f)" % (name, where, d, n, lim),
                        fam=name)
    c = u - 0.5
    for what, v, sd in (("mean", c, np.sqrt(1 / 12.)),
                        ("spread", c * c - 1 / 12., np.sqrt(1 / 180.)),
                        ("cos", np.cos(2 * np.pi * u), np.sqrt(.5)),
                        ("sin", np.sin(2 * np.pi * u), np.sqrt(.5))):
        z = v.mean() / sd * np.sqrt(n)
        lim = Z + slack * 4 * np.sqrt(n)
        if not abs(z) <= lim:
            raise Violation("distribution", "%s (%s): samples do not follow "
                            "exp(log_prob): %s of the probability transform "
                            "is off by %.1f standard errors over %d samples"
                            % (name, where, what, z, n), fam=name)


def reused(name, u):
    """Samples made from the same (or the mirrored) draw, wherever they are."""
    n, tol = u.size, 2e-7
    v = np.sort(np.minimum(u, 1.0 - u))
    frac = float(np.mean(np.diff(v) < tol))
    # neighbours this close among n independent draws
    lim = 0.04 + 3 * (1 - np.exp(-2 * n * tol))
    if frac > lim:
        raise Violation("independence", "%s: %.0f%% of %d samples repeat the "
                        "draw, or the mirrored draw, of another one"
                        % (name, 100 * frac, n), fam=name)


def indep(name, where, a, b, half):
    n = a.size
    lim = Z + (0.02 * np.sqrt(n) if half else 0.0)
    a, b = a - 0.5, b - 0.5
    za = (a * b).mean() * 12 * np.sqrt(n)
    zb = ((np.abs(a) - 0.25) * (np.abs(b) - 0.25)).mean() * 48 * np.sqrt(n)
    if not (abs(za) <= lim and abs(zb) <= lim):
        raise Violation("independence", "%s (%s): samples are dependent "
                        "(correlation %.3f, of magnitudes %.3f, over %d pairs)"
                        % (name, where, za / np.sqrt(n), zb / np.sqrt(n), n),
                        fam=name)
