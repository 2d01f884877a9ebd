"""C29: see sim/replsim.py."""
from .. import replsim

ID = "C29"


def gen(rng, tier, idx):
    return replsim.gen29(rng, idx)


def run(plan):
    return replsim.run29(plan)


shrinks = replsim.shrinks
