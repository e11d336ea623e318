"""C01: every HMC iteration is one exact Metropolis-corrected transition."""
from sim import tfenv  # noqa: F401
from sim import hmcscn

shrink = hmcscn.shrink
STRICT = ["momentum", "accept", "transition", "transition-init"]


def gen(seed, tier):
    return hmcscn.gen(seed, tier, "C01")


def run(sc, ctx):
    hmcscn.drive(sc, ctx, STRICT)
