"""C04: adaptation follows its recurrences over every on/off history."""
from sim import tfenv  # noqa: F401
from sim import hmcscn

shrink = hmcscn.shrink
STRICT = ["step-size", "momentum", "transition-init"]


def gen(seed, tier):
    return hmcscn.gen(seed, tier, "C04")


def run(sc, ctx):
    hmcscn.drive(sc, ctx, STRICT)
