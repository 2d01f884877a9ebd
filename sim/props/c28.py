"""C28: see sim/replsim.py."""
from .. import replsim

ID = "C28"


def gen(rng, tier, idx):
    return replsim.gen28(rng, idx)


def run(plan):
    return replsim.run28(plan)


shrinks = replsim.shrinks
