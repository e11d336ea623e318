#!/usr/bin/env python3
"""Self-tests of the machinery (run: tools/selftest.sh).

determinism: scenarios of every check, executed twice, in processes with
different PYTHONHASHSEED, give the same event-log digest.
fidelity: HMC/SGMCMC programs run under the simulated executor and, with the
recorded draws fed in place of the random ops, under the real tf.Session leave
bit-identical latents and statistics (up to kernel-fusion rounding).
"""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ALL = ["c%02d" % i for i in range(1, 19)]


def child(ids, k):
    import importlib
    from sim import runner
    for c in ids:
        mod = importlib.import_module("checks." + c)
        for s in range(k):
            sc = mod.gen(77000 + s, "quick")
            v, h, ctx = runner.execute(mod, sc)
            print("D", c, s, runner.digest(ctx.log), v and v["kind"], h,
                  flush=True)


def determinism(ids, k):
    procs = []
    for hs in ("0", "12345"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        procs.append(subprocess.Popen(
            [sys.executable, __file__, "child", str(k)] + ids, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    outs = [[l for l in p.communicate()[0].splitlines() if l[:2] == "D "]
            for p in procs]
    bad = [(a, b) for a, b in zip(*outs) if a != b]
    print("determinism: %d executions compared, %d differ" % (
        len(outs[0]), len(bad)))
    for a, b in bad[:5]:
        print("  ", a, "|", b)
    return not bad and len(outs[0]) == len(outs[1]) == k * len(ids)


def fidelity(k):
    from sim import tfenv  # noqa: F401
    import numpy as np
    import tensorflow as tf
    from sim import hmcscn, sgscn
    from sim.core import Ctx
    import checks.c01
    import checks.c05
    n = bad = 0
    worst = 0.0
    for seed in range(k):
        for mod, scn in ((checks.c01, hmcscn), (checks.c05, sgscn)):
            sc = mod.gen(880000 + seed, "quick")
            ctx = Ctx(sc)
            w = scn.World(sc, ctx)
            s = w.session()
            hmc = scn is hmcscn
            fd = {} if hmc else {w.lr_ph: w.cfg["lr"]}
            s.run(w.init, fd)
            conf = tf.ConfigProto(inter_op_parallelism_threads=4)
            with tf.Session(graph=w.g, config=conf) as real:
                def draws():
                    f = {}
                    for d in s.last.draws:
                        if d.frame:
                            return None
                        f[w.g.get_tensor_by_name(d.op + ":0")] = d.value
                    return f
                dr = draws()
                if dr is None:
                    continue
                fd.update(dr)
                real.run(w.init, fd)
                for it in sc["iters"]:
                    q = w.q(s)
                    f = w.feed(it, q) if hmc else w.feed(it)
                    out = s.run(w.fetches(it), f)
                    dr = draws()
                    if dr is None:
                        break
                    f.update(dr)
                    rout = real.run(w.fetches(it), f)
                    with w.g.as_default():
                        rq = real.run(w.lat)
                    qn = w.q(s)
                    n += 1
                    for key in w.m.names:
                        e = np.max(np.abs(qn[key] - rq[key]) /
                                   (1 + np.abs(qn[key])))
                        worst = max(worst, float(e))
                        if not e <= 1e-4:
                            bad += 1
                            print("  differs: seed", seed, mod.__name__, key, e)
                            break
                    else:
                        continue
                    break
    print("fidelity: %d iterations compared with tf.Session, %d differ, "
          "largest relative difference %.2g" % (n, bad, worst))
    return not bad and n > 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["child"]:
        child(sys.argv[3:], int(sys.argv[2]))
    else:
        k = int(sys.argv[1]) if len(sys.argv) > 1 else 8
        ok = fidelity(5 * k)
        ok = determinism(ALL, k) and ok
        sys.exit(0 if ok else 1)
