"""C06: momentum is resampled exactly every n_iter_resample_v iterations."""
from sim import tfenv  # noqa: F401
from sim import sgscn

shrink = sgscn.shrink


def gen(seed, tier):
    return sgscn.gen(seed, tier, algs=["SGHMC", "SGNHT"],
                     n_choices=(None, 0, 1, 2, 2, 3, 3, 4, 7), iters=(4, 11))


def run(sc, ctx):
    sgscn.drive(sc, ctx, schedule_check=True)
