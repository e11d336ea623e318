"""C05: every SGMCMC iteration is one simultaneous documented update."""
from sim import tfenv  # noqa: F401
from sim import sgscn

shrink = sgscn.shrink


def gen(seed, tier):
    return sgscn.gen(seed, tier)


def run(sc, ctx):
    sgscn.drive(sc, ctx)
