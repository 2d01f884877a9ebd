"""C24: see sim/replsim.py."""
from .. import replsim

ID = "C24"


def gen(rng, tier, idx):
    return replsim.gen24(rng, idx)


def run(plan):
    return replsim.run24(plan)


shrinks = replsim.shrinks
