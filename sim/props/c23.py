"""C23: see sim/splitsim.py."""
from .. import splitsim

ID = "C23"


def gen(rng, tier, idx):
    return splitsim.gen(rng, idx)


def run(plan):
    return splitsim.run(plan, ID)


shrinks = splitsim.shrinks
