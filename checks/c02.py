"""C02: HMC statistics describe the iteration they are fetched with."""
from sim import tfenv  # noqa: F401
from sim import hmcscn

shrink = hmcscn.shrink
STRICT = ["info-acceptance"]


def gen(seed, tier):
    return hmcscn.gen(seed, tier, "C02")


def run(sc, ctx):
    hmcscn.drive(sc, ctx, STRICT, info=True)
