"""C03: diverging or invalid chains are rejected, contained, recoverable."""
from sim import tfenv  # noqa: F401
import numpy as np

from sim import hmcscn
from sim.core import Violation

shrink = hmcscn.shrink
STRICT = ["invalid-chain", "transition", "transition-init", "check-numerics",
          "accept"]
BOUND = 12


def gen(seed, tier):
    return hmcscn.gen(seed, tier, "C03")


def run(sc, ctx):
    sc2 = dict(sc)
    n = len(sc["iters"])
    if sc["recover"]:
        extra = []
        for i in range(sc["recover"]):
            it = dict(sc["iters"][-1])
            it.update({"faults": [], "fetch": []})
            extra.append(it)
        sc2["iters"] = sc["iters"] + extra
    st = {"moved": None, "i": 0, "rate": None, "step": None,
          "step0": None}

    def on_iter(w, s, ref, it, q, qn, wat, pr, moved):
        st["i"] += 1
        p = np.concatenate([v.ravel() for v in wat["p"].values()])
        if st["i"] > n:
            st["moved"] = moved if st["moved"] is None else \
                (st["moved"] | moved)
            if st["step0"] is None:
                st["step0"] = st["step"]
            r = np.asarray(wat["acc"])
            st["rate"] = r if st["rate"] is None else np.maximum(st["rate"], r)
        st["step"] = float(wat["step"]) if wat["step"] is not None else None
        st["p"] = p
    res = hmcscn.drive(sc2, ctx, STRICT, faulty=True, on_iter=on_iter)
    if res is None or not sc["recover"]:
        return
    ctx.probes["recovery-judged"] += 1
    if sc.get("streak"):
        ctx.probes["streak-recoveries"] += 1
    if not np.isfinite(st["p"]).all() or (
            st["step"] is not None and
            not (0 < st["step"] < np.inf)):
        raise Violation("stuck", "%d iterations after the last fault the step "
                        "size is %s and the momentum %s: the sampler cannot "
                        "move" % (sc["recover"], st["step"], st["p"][:4]))
    stuck = ~st["moved"] & ~(st["rate"] > 0)
    if stuck.any() and sc["iters"][-1]["adapt_step"] and \
            not st["step"] < st["step0"]:
        raise Violation("stuck", "a chain had acceptance rate 0 in all of %d "
                        "fault-free iterations after the last fault and the "
                        "adaptation did not reduce the step size (%s to %s)"
                        % (sc["recover"], st["step0"], st["step"]))
