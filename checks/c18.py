"""C18: samples and log densities carry exactly the gradients they declare.

The same random draws are replayed exactly with the parameters moved, so the
derivative of the sampling map at fixed draws is observed rather than derived.
"""
from sim import tfenv  # noqa: F401
import copy
import random

import numpy as np
import tensorflow as tf

from sim.core import Violation
from sim.dists import (FAMS, apply_omit, count_density, draw, gen_omit,
                       tf_params)
from sim.executor import SimSession

KEYS = ("mean", "std", "logstd", "loc", "scale", "minval", "maxval", "alpha",
        "beta", "temperature", "logits", "rate", "cov_tril", "u_tril",
        "v_tril")


def gen(seed, tier):
    r = random.Random("c18-%d" % seed)
    name = sorted(FAMS)[seed % len(FAMS)]
    f = FAMS[name]
    batch = r.choice([[], [1], [2], [3], [2, 3], [3, 1]])
    sa, sb = list(batch), list(batch)
    if f.two and batch:
        mode = r.choice(["same", "a-scalar", "b-scalar", "ones"])
        if mode == "a-scalar":
            sa = []
        elif mode == "b-scalar":
            sb = []
        elif mode == "ones":
            sb = [1] * len(batch)
    sc = {"seed": seed, "fam": name, "batch": batch, "sa": sa, "sb": sb,
            "n": r.choice([None, 1, 2, 5]),
            "dtype": "float64" if r.random() < 0.8 else "float32",
            "shape": r.choice(["full", "full", "part", "none"]),
            "group": min(len(batch), r.choice([0, 0, 1, 2])),
            "via": r.choice(["direct", "direct", "bn", "old"]),
            "reparam": r.choice([None, True, False, False])
            if f.reparam else None,
            "path": r.random() < 0.5 if f.path else None,
            "check": f.check and r.random() < 0.15,
            "pseed": r.getrandbits(30), "runs": r.choice([1, 2, 3]),
            "sched": {"kind": "seed", "seed": r.getrandbits(40)}}
    r2 = random.Random("c18-omit-%d" % seed)
    sc["omit"] = gen_omit(name, r2, sc)
    sc["nogroup"] = sc["group"] == 0 and r2.random() < 0.5
    if r2.random() < 0.3:
        sc["via"] = "bn"
    if name == "Multinomial":
        sc["counts"] = r2.choice([None, "free", "bag"])
        sc["norm"] = r2.choice([None, True, False])
    return sc


def shrink(sc):
    for k, v in (("via", "direct"), ("runs", 1), ("n", None), ("group", 0),
                 ("check", False), ("shape", "full"), ("dtype", "float64")):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    if sc["batch"]:
        c = copy.deepcopy(sc)
        c["batch"] = c["sa"] = c["sb"] = []
        c["group"] = 0
        yield c


def zero(g):
    return g is None or not np.any(np.asarray(g))


def run(sc, ctx):
    f, name = FAMS[sc["fam"]], sc["fam"]
    g = np.random.default_rng(sc["pseed"])
    p = apply_omit(name, f.params(g, tuple(sc["sa"]), tuple(sc["sb"])),
                   sc["omit"])
    dt = sc["dtype"]
    p = {k: v for k, v in p.items() if k not in sc["omit"]}
    p = {k: v if isinstance(v, int) else np.asarray(v, dt)
         for k, v in p.items()}
    fed = {k: sc["shape"] for k in KEYS}
    fed["temperature"] = "full"
    graph, feeds = tf.Graph(), {}
    with graph.as_default():
        tp = tf_params(p, dt, fed, feeds)
        keys = sorted(k for k in p if not isinstance(p[k], int))
        kw = {} if sc["nogroup"] else {"group_ndims": sc["group"]}
        if sc["check"]:
            kw["check_numerics"] = True
        if sc["reparam"] is not None:
            kw["is_reparameterized"] = sc["reparam"]
        via = sc["via"]
        if sc["path"]:
            kw["use_path_derivative"] = True
            via = "direct" if via == "old" else via
        if sc.get("norm") is not None:
            kw["normalize_logits"] = sc["norm"]
        dist, x, lpx = ctx.lib(draw, name, tp, kw, sc["n"], via)
        rep = bool(dist.is_reparameterized)
        if f.reparam and rep != (sc["reparam"] is not False):
            raise Violation("flag", "%s made with is_reparameterized=%s "
                            "reports %s" % (name, sc["reparam"], rep))
        if not f.cont and rep:
            raise Violation("flag", "%s is discrete and reports "
                            "is_reparameterized" % name)
        given = tf.placeholder(x.dtype, None, name="given")
        if sc["shape"] != "none":
            gv = tf.reshape(given, tf.shape(x))
            gv.set_shape(x.get_shape())
        else:
            gv = given
        if sc.get("counts"):
            # the density of given counts: the same derivative
            lpg, _ = ctx.lib(count_density, tp, kw, gv, sc["counts"], via)
        else:
            lpg = ctx.lib(dist.log_prob, gv)
        wx = tf.placeholder(dt, None, name="wx")
        wl = tf.placeholder(dt, None, name="wl")
        P = [tp[k] for k in keys]
        sx = tf.reduce_sum(tf.cast(x, dt) * wx)
        sl = tf.reduce_sum(lpg * wl)
        sxl = tf.reduce_sum(lpx * wl)
        gx = ctx.lib(tf.gradients, sx, P)
        gl = ctx.lib(tf.gradients, sl, P)
        gxl = ctx.lib(tf.gradients, sxl, P)
        gg = ctx.lib(tf.gradients, sl, [given])[0] if f.cont else None
        if gg is not None:
            gg = tf.reshape(gg, [-1])
    pick = [t for t in gx + gl + gxl if t is not None]
    ph = {k: tp[k] for k in keys}

    def go(i, fetch, par, extra, label):
        """run number i of a fresh process, with the draws of the base run"""
        s = SimSession(graph, sc["seed"] * 10 + i, ctx.sched(label))
        fd = dict(feeds)
        fd.update({ph[k]: par[k] for k in keys})
        fd.update(extra)
        return ctx.lib(s.run, fetch, fd)

    tol = 2e-5 if dt == "float64" else 2e-2
    h = 1e-6 if dt == "float64" else 1e-3
    for i in range(sc["runs"]):
        lab = "r%d" % i
        xv, lv = go(i, [x, lpx], p, {}, lab + "a")
        xv = np.asarray(xv)
        if name in ("Beta", "Dirichlet", "BinConcrete", "Concrete"):
            if np.any(xv <= 1e-12) or np.any(xv >= 1 - 1e-12):
                ctx.probes["edge-skip"] += 1
                continue
        w_x = g.normal(size=xv.shape).astype(dt)
        w_l = g.normal(size=np.shape(lv)).astype(dt)
        base = {given: xv, wx: w_x, wl: w_l}
        fetch = [x, sx, sl, sxl] + pick + ([gg] if gg is not None else [])
        out = go(i, fetch, p, base, lab + "b")
        if not np.array_equal(out[0], xv):
            raise AssertionError("replay drew other samples")
        vals = iter(out[4:])
        G = [[None if t is None else np.asarray(next(vals), np.float64)
              for t in gs] for gs in (gx, gl, gxl)]
        Gg = next(vals) if gg is not None else None
        ctx.probes["checked"] += 1

        def bad(kind, k, got, want):
            raise Violation(
                kind, "%s (is_reparameterized=%s, use_path_derivative=%s): "
                "%s with respect to %s is %s, should be %s"
                % (name, rep, bool(sc["path"]), {
                    "sample-gradient": "the derivative of the sample",
                    "density-gradient": "the derivative of log_prob",
                    "total-gradient": "the derivative of log_prob of its own "
                                      "sample"}[kind], k, got, want),
                fam=name, param=k)

        def direction(k):
            v = g.normal(size=np.shape(p[k]))
            if "tril" in k:
                v = np.tril(v)
            return v

        for j, k in enumerate(keys):
            v = direction(k)
            ends = []
            for sgn in (1, -1):
                q = dict(p)
                q[k] = (p[k] + sgn * h * v).astype(dt)
                ends.append([np.asarray(t, np.float64) for t in go(
                    i, [sx, sl, x], q, base, "%s%s%d" % (lab, k, sgn))])
            step = np.asarray((p[k] + h * v).astype(dt), np.float64) - \
                np.asarray((p[k] - h * v).astype(dt), np.float64)
            den = float(np.abs(step).max() / max(np.abs(v).max(), 1e-30)) \
                if np.size(v) else 2 * h
            dx, dl = [(ends[0][m] - ends[1][m]) / den for m in (0, 1)]

            def dirv(gr):
                return 0.0 if gr is None else float((gr * v).sum())

            def mag(gr):
                return 1.0 if gr is None else 1.0 + float(np.abs(gr).max())

            # ---- the sample
            if rep:
                got = dirv(G[0][j])
                if abs(got - dx) > tol * (mag(G[0][j]) * 10 + abs(dx)):
                    bad("sample-gradient", k, got, float(dx))
                if G[0][j] is None and name != "x" and abs(dx) > 1e-3:
                    bad("sample-gradient", k, None, float(dx))
            elif not zero(G[0][j]):
                bad("sample-gradient", k, dirv(G[0][j]), 0.0)
            # ---- the density at a fixed value
            if sc["path"]:
                if not zero(G[1][j]):
                    bad("density-gradient", k, dirv(G[1][j]), 0.0)
            else:
                got = dirv(G[1][j])
                if abs(got - dl) > tol * (mag(G[1][j]) * 10 + abs(dl)):
                    bad("density-gradient", k, got, float(dl))
            # ---- the density at its own sample: both paths, or either
            if Gg is not None or not rep:
                own = 0.0
                if rep:
                    d = (ends[0][2] - ends[1][2]) / den
                    own = float((np.asarray(Gg, np.float64) * d.ravel()).sum())
                want = own + (0.0 if sc["path"] else float(dl))
                got = dirv(G[2][j])
                m = mag(G[2][j]) * 10 + abs(want) + abs(own) + abs(dl)
                if abs(got - want) > 2 * tol * m:
                    bad("total-gradient", k, got, want)
        ctx.note("x", i, float(np.sum(np.asarray(xv, np.float64))))
